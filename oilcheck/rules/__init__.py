from . import flow, wells, state, implicit, fluidrules, output, solver, lint
RULES = {}
for m in (flow, wells, state, implicit, fluidrules, output, solver, lint):
    RULES.update(m.RULES)

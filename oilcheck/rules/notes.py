"""texts for MANIFEST.json"""
VG = 'abstract interpretation of the source into a gated, hash-consed value graph; '
NOTE = ('Obligations are discharged by equality of normal forms (for all inputs, in real arithmetic) or, where the normal form does not decide, by '
        'random interpretation of the value graph (equal at every sampled point); the evidence counts both. Constructs the analysis cannot follow '
        'are listed as undecided and never alarm. Trusted: the models of torch/numpy/Python in oilcheck/ext.py.')
T = lambda s, n: (VG + s, n)
TECHNIQUE = {
    'C03': T('per-face balance terms compared', 'Decides face balance, closed boundaries and substep increments for every cell face, axis and phase.'),
    'C04': T('matrix triplets classified by index set and compared', 'Decides symmetry, stencil, row sums and coupling formula of the assembled matrix.'),
    'C05': T('accumulation terms of matrix and right-hand side compared', 'Decides both accumulation coefficients.'),
    'C06': T('face fluxes compared with a reference flux', 'Decides each phase flux of each axis.'),
    'C07': T('face transmissibilities compared with a reference', 'Decides the transmissibility in matrix and fluxes, with the division guard checked down to 1e-6 mD.'),
    'C33': T('gravity and capillary right-hand side terms compared', 'Decides conservation of all terms and the gravity formula.'),
    'C09': T('well terms of the cell balances compared', 'Decides own cell, phase, shares, rate and direction for every kind of well.'),
    'C10': T('well terms compared with black-oil conversions', 'Decides surface-to-reservoir conversion for every controlled phase.'),
    'C11': T('well terms compared with a reference choke and limiter', 'Decides choking and surface limits.'),
    'C12': T('balance updates compared with applied well volumes', 'Decides component totals for every kind of well and for pairs of wells.'),
    'C13': T('balance updates compared with the change of state', 'Decides in minus out and monotonicity for the three phases.'),
    'C31': T('pressure and saturation well terms compared', 'Decides pressure-controlled wells and the switch to minimum pressure in both equations.'),
    'C36': T('two-well worlds compared with one-well worlds', 'Decides additivity of well contributions for pairs of well kinds.'),
    'C37': T('pressure and saturation well rates compared', 'Decides equality of the two rates where the code has it; the modes where it has not are known findings.'),
    'C38': T('symbolic well index compared', 'Decides the dependence of the well index on the radius; its value is a known finding, so the remaining clauses are not decided.'),
}
TECHNIQUE.update({
    'C01': T('loop invariant of the saturation sum proved on the value graph', 'Decides the closure at construction and at every exit of a step of both schemes.'),
    'C02': T('sign proof of the clamped saturations on the value graph', 'Decides the three bounds after every exit of a sequential step.'),
    'C14': T('result flag and restored fields followed to every exit', 'Decides the reported flag and the state after a failed step of both schemes.'),
    'C15': T('loop bounds, step arguments and events of Simulator.run compared', 'Decides step count, step length, stop at failure, picture condition and picture data.'),
    'C08': T('unit factors of every configured quantity compared', 'Decides the factors of fluid, reservoir, table, well and time quantities where they enter the equations.'),
    'C22': T('table reads compared, acceptance condition of the table constructor compared with the stated one', 'Decides the column of every entry, the interpolation and the acceptance of a table.'),
    'C24': T('density and viscosity expressions compared with the stated laws', 'Decides functions of pressure and current-state properties, with and without tables.'),
    'C25': T('curves compared with the stated ones', 'Decides all curves for both models, with and without a gas saturation.'),
    'C26': T('symbolic derivative of each curve compared with its derivative function', 'Decides all derivative functions inside and outside the mobile range.'),
    'C35': T('compressibility expression compared', 'Decides each phase term, the rock term and the use in the pressure equation.'),
})
TECHNIQUE.update({
    'C23': T('table written and columns read compared, lengths and values of the columns compared with the stated ones', 'Decides columns, lengths, pressures, plausible units, meta data and command-line options.'),
    'C29': T('construction, reset and step of the environment compared object by object', 'Decides fresh objects, same construction, same first step, applied actions, observation, reward and termination.'),
    'C30': T('arguments of the writing calls compared with the fields', 'Decides compressed file, summary, balances, full arrays, pictures, point file and cell file.'),
    'C32': T('conversion expressions compared, acceptance condition of wells compared with the stated one', 'Decides numbering, inverse, rejection and both notations.'),
    'C34': T('frame sequence extracted and evaluated over model directory listings', 'Decides order, completeness and frame rate on the listed families of directory listings; the names are samples, not all names.'),
})
TECHNIQUE.update({
    'C16': T('loop invariants inferred (Houdini) and used to prove the exit condition; counterexamples sought on small systems',
             'Decides that convergence is reported only below the tolerance for the residual of the returned vector, with and without preconditioner and start vector.'),
    'C17': T('cycle of a refreshed hierarchy compared with that of a new one in a normal form for matrix products; sequence of calls followed through the cache',
             'Decides the refresh of every level for four shapes of hierarchy and the cache for a sequence of eleven calls; choice of coarse unknowns and interpolation weights are opaque, as is the sparse product.'),
    'C18': T('solve and apply reduced in a normal form for matrix products, with the exact solution as start or as cycle',
             'Decides scaling, unscaling and the convergence test for four shapes of hierarchy, scaled or not.'),
    'C19': T('cycle without smoothing compared with the Galerkin recursion in a normal form for matrix products',
             'Decides coarse operators, restriction, interpolation and correction for four shapes of hierarchy, built and refreshed; the sparse product is trusted.'),
})
TECHNIQUE.update({
    'C20': T('writes to storage followed through aliases; saved states compared by storage location',
             'Decides that solves write to nothing they were given and that saved states share no storage with the current one, for both schemes.'),
    'C21': ('interprocedural source tracking of random draws and clock reads over the syntax tree, with a field-by-field value-graph check of the results of steps, runs and the environment',
            'Decides every draw and clock read of the package: either seeded at the draw from constants or inputs, or not reaching a result.'),
    'C27': ('definite-assignment dataflow and attribute, signature and result typing over the syntax tree, with paths followed by abstract interpretation',
            'Decides names, imports, attributes, call signatures and result unpacking on every path; paths whose condition cannot be told apart are listed as undecided.'),
    'C28': T('expressions that use a setting compared with the setting and with its default', 'Decides the settings listed in the statement, given and absent, and the sections of the command line.'),
})
TECHNIQUE.update({
    'C43': T('sign proof of the updated fields over the loop invariants of the Newton iteration', 'Decides the limits at every exit and the bound of one iteration, with the results of the linear solves left free.'),
    'C44': T('contributions of the assembled residual collected per loop and compared', 'Decides faces in three directions, accumulation, wells, the line search residual and the stored previous state.'),
    'C45': T('entries of the assembled matrix compared with the symbolic derivative of the assembled residual', 'Decides every entry, per face direction, cell and kind of well, the regularisation and the branches of the solver.'),
})
NOT_APPLICABLE = {
    'C39': 'Whether an iteration reaches an accuracy in a number of steps depends on the spectrum of run-time matrices; no static argument in reach bounds it (C16 decides that convergence is not claimed without it).',
    'C40': 'Convergence under refinement is a limit statement about numerical results; it is not visible in the shape of the code.',
    'C41': 'Agreement across devices and precisions quantifies over rounding of run-time values and over device libraries outside the source.',
    'C42': 'The fully implicit scheme departs from the sequential equations by design in several ways (mobility weighting, well terms without time step and density, frozen gas), so the equality does not hold, and a rule that only lists departures would decide nothing. What the scheme does keep is decided by C43 (limits), C44 (conservative balance) and C45 (matrix).',
}

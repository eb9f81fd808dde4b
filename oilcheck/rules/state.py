"""State of the simulator: C01 C02 C14 C15."""
from fractions import Fraction as Fr
from .. import nodes as nd
from ..nodes import num, sym, string, mk, ZERO, ONE, TRUE, FALSE, N
from ..impes import Step
from ..world import DT, grid, scalar, World
from ..values import OC
from ..interp import AnalysisError
from ..lib import guarded, locate, Broken
from ..ri import equiv
from .flow import SRC

PROD = [dict(type='producer', control_type='rate')]
RP = sym('rpcfg')
SWC = mk('get', RP, string('sw_cr'), num(Fr('0.2')))
SOR = mk('get', RP, string('so_r'), num(Fr('0.2')))
SGC = mk('get', RP, string('sg_cr'), num(0))
FLAGS = {True: 'converged', False: 'not converged', None: 'any outcome'}


def steps(c, rule, solvers=('impes', 'fully_implicit'), flags=(True, False, None), wells=PROD, kinds=(True, False), **kw):
    for sv in solvers:
        for pvt in kinds:
            if sv == 'fully_implicit' and pvt:
                continue
            for fl in flags if sv == 'impes' else (None,):
                lab = '%s, %s, %s' % ({'impes': 'sequential', 'fully_implicit': 'fully implicit'}[sv], 'tables' if pvt else 'no tables', FLAGS[fl])
                s = guarded(c, rule, lab, Step, c, pvt=pvt, wells=list(wells), solver=sv, converged=fl, sources=SRC, **kw)
                if s is not None:
                    yield lab, s


# ---------------------------------------------------------------------------- C01
def C01(c):
    c.rule('sum at the start', 'after construction oil saturation is one minus water minus gas')
    c.rule('sum after a step', 'if the sum is one before a step it is one after the step, at every exit')
    w = guarded(c, 'sum at the start', 'construction', World, pvt=False)
    if w is not None:
        c.absorb(w.ip)
        f = lambda a: w.ip.node(w.ctor_state, w.ip.getattr(w.fl, a, w.ctor_state, None))
        guarded(c, 'sum at the start', 'construction', lambda: c.equal('sum at the start', 'construction', nd.add(f('s_o'), f('s_w'), f('s_g')), ONE, w))
    for lab, s in steps(c, 'sum after a step'):
        guarded(c, 'sum after a step', lab, c01_step, c, s, lab)


def free(n, memo):
    """the value in one cell, with everything arithmetic does not decide left free"""
    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op in ('num', 'bool', 'get'):
                r = x
            elif x.op in ('poly', 'pow', 'min', 'max', 'ite', 'abs', 'gt0', 'eq0', 'not', 'and', 'or'):
                r = nd.rebuild(x, go)
            elif nd.is_bool(x):
                r = nd.gt0(nd.sub(scalar('gate%d' % len(memo)), num(Fr(1, 2))))
            else:
                r = scalar('free%d' % len(memo))
            memo[x] = r
        return r
    return go(n)


def same_sum(so, rest, want, w):
    """so + rest == want, in one cell; opaque values are compared as free ones if none of them occurs in so alone"""
    v = equiv(nd.add(so, rest), want, w)
    if v.kind != 'undecided':
        return v
    memo = {}
    a, b = free(so, memo), free(nd.sub(rest, want), memo)
    frees = lambda n: {x for x in nd.walk(n) if x.op == 'sym' and (nd.show(x).startswith(('free', 'gate')))}
    u = equiv(nd.add(a, b), ZERO, w, points=100, ranges=[('free', 0, 1, 'lin'), ('gate', 0, 1, 'lin')])
    if u.kind == 'equal' or u.kind == 'differs' and frees(a) <= frees(b):
        return u
    return v


class Sum:
    """the invariant s_o + s_w + s_g = 1 carried through loops"""

    def __init__(self, s, broken=()):
        self.s = s
        self.broken = set(broken)
        w = s.w
        self.names = {a: 'h%d.%s' % (w.fl.loc, a) for a in ('s_o', 's_w', 's_g')}
        self.memo = {}
        self.ind = {}
        self.bad = []
        old = {a: w.nodeof(w.fl, a, w.st) for a in self.names}
        self.memo[old['s_o']] = nd.sub(ONE, nd.add(old['s_w'], old['s_g'])) if old['s_o'].op == 'sym' else self.red(old['s_o'])

    def relation(self, lid):
        """replacement of the loop variable of s_o, if the sum is invariant in the loop"""
        if lid in self.ind:
            return self.ind[lid]
        t = self.s.w.ip.loop_table.get(lid, {})
        mu = {a: mk('mu', lid, n) for a, n in self.names.items()}
        if mu['s_o'] not in t or lid in self.broken:
            self.ind[lid] = None
            return None
        self.ind[lid] = None
        init = {a: self.red(t[m][0]) for a, m in mu.items() if m in t}
        rep = init['s_o']
        for a in ('s_w', 's_g'):
            if mu[a] in t:
                rep = nd.add(rep, nd.sub(init[a], mu[a]))
        self.memo[mu['s_o']] = rep
        self.ind[lid] = rep
        back = self.red(t[mu['s_o']][1])
        rest = ZERO
        for a in ('s_w', 's_g'):
            if mu[a] in t:
                rest = nd.add(rest, nd.sub(self.red(t[mu[a]][1]), init[a]))
        v = same_sum(nd.sub(back, init['s_o']), rest, ZERO, self.s.w)
        if not v:
            self.bad.append((lid, v))
        return rep

    def red(self, n):
        r = self.memo.get(n)
        if r is not None:
            return r
        if n.op == 'mu' and n.args[1] == self.names['s_o']:
            self.relation(n.args[0])
            r = self.memo.get(n, n)
        elif n.op == 'loopval' and n.args[3].op == 'mu' and n.args[3].args[1] == self.names['s_o']:
            lid = n.args[0]
            if lid in self.broken:
                self.memo[n] = n
                return n
            self.relation(lid)
            t = self.s.w.ip.loop_table.get(lid, {})
            r = self.red(n.args[1])
            for a in ('s_w', 's_g'):
                m = mk('mu', lid, self.names[a])
                if m in t:
                    i, b = t[m]
                    r = nd.add(r, nd.sub(self.red(i), self.red(mk('loopval', lid, i, b, m))))
        else:
            r = nd.rebuild(n, self.red)
        self.memo[n] = r
        return r


def first_round(w, n):
    """a loop left in its first round: its variables have their initial values"""
    for _ in range(8):
        inner = {x.args[0] for x in nd.walk(n) if x.op == 'loopval'}
        m = {}
        for x in nd.walk(n):
            if x.op == 'mu' and x.args[0] not in inner and x in w.ip.loop_table.get(x.args[0], {}):
                m[x] = w.ip.loop_table[x.args[0]][x][0]
        if not m:
            break
        n = nd.subst(n, m)
    return n


def c01_step(c, s, lab):
    w = s.w
    if not s.good:
        raise AnalysisError('no exit')
    for n, (st, _) in enumerate(s.good):
        S = Sum(s)
        so, sw, sg = [S.red(w.nodeof(w.fl, a, st)) for a in ('s_o', 's_w', 's_g')]
        tot = nd.add(so, sw, sg)
        what = lab + ('' if len(s.good) == 1 else ', exit %d' % n)
        if S.bad:
            und = [v for _, v in S.bad if v.kind == 'undecided']
            lid, v = S.bad[0]
            if und:
                raise AnalysisError('a loop writes oil saturation in a way the analysis cannot follow: ' + und[0].how)
            S2 = Sum(s, {l for l, _ in S.bad})
            tot = nd.add(*[S2.red(w.nodeof(w.fl, a, st)) for a in ('s_o', 's_w', 's_g')])
        if lab.endswith(', converged'):
            tot = first_round(w, tot)
        if S.bad and any(x.op in ('mu', 'loopval') and x.args[0] in S2.broken and (x if x.op == 'mu' else x.args[3]).args[1] == S.names['s_o'] for x in nd.walk(tot)):
            c.add('sum after a step', what, 'violated', 'one round of a loop changes the sum of the three saturations',
                  locate(w, w.nodeof(w.fl, 's_o', st)))
            continue
        if not S.bad and same_sum(so, nd.add(sw, sg), ONE, w).kind == 'differs':
            c.add('sum after a step', what, 'violated', 'oil saturation is not one minus the water and gas saturation the step leaves behind',
                  locate(w, w.nodeof(w.fl, 's_o', st)))
            continue
        c.equal('sum after a step', what, tot, ONE, w, where=locate(w, w.nodeof(w.fl, 's_o', st)), what='sum of the three saturations')


# ---------------------------------------------------------------------------- C02
def C02(c):
    c.rule('connate water', 'water saturation after a substep is at least connate water, whatever the increments are')
    c.rule('critical gas', 'gas saturation after a substep is at least critical gas, whatever the increments are')
    c.rule('residual oil', 'one minus water minus gas after a substep is at least residual oil, whatever the increments are')
    c.rule('at least one substep', 'every successful step makes at least one substep')
    for pvt, nz1 in ((True, False), (False, False), (False, True)):
        lab = ('tables' if pvt else 'no tables') + (', one layer' if nz1 else '')
        s = guarded(c, 'connate water', lab, Step, c, pvt=pvt, nz1=nz1, wells=PROD, sources=SRC)
        if s is not None:
            guarded(c, 'connate water', lab, c02_step, c, s, lab)


KEEP = ('min', 'max', 'ite', 'get', 'mu', 'abs', 'poly', 'num', 'gt0', 'eq0', 'not', 'and', 'or', 'bool')


def simplify(n, table, known=()):
    """replace everything that is not a bound by one free symbol per sum"""
    memo = {}

    def atom_ok(a):
        return a.op in ('min', 'max', 'ite', 'abs') or a in (SWC, SOR, SGC) or a in known or a.op == 'mu'

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'poly':
            keep, rest = [], {}
            for m, cf in x.args:
                if all(e == 1 and atom_ok(a) for a, e in m) and len(m) <= 1:
                    keep.append(nd.mul(num(cf), *[go(a) for a, _ in m]))
                else:
                    rest[m] = cf
            if rest:
                keep.append(free(nd.from_terms(rest)))
            r = nd.add(*keep)
        elif x.op in ('num', 'bool') or x in (SWC, SOR, SGC) or x in known:
            r = x
        elif x.op == 'mu':
            r = free(x)
        elif x.op in ('min', 'max', 'ite', 'abs', 'gt0', 'eq0', 'not', 'and', 'or'):
            r = nd.rebuild(x, go)
        else:
            r = free(x)
        memo[x] = r
        return r

    def free(x):
        if x not in table:
            table[x] = scalar(('mu%d' if x.op == 'mu' else 'inc%d') % len(table))
        return table[x]
    return go(n)


HYP = nd.sub(ONE, nd.add(SWC, SOR, SGC))


def prove_ge0(L, hyps, depth=14, memo=None):
    """syntactic: L >= 0 from linear hypotheses, splitting min, max and gates"""
    memo = {} if memo is None else memo
    if L in memo:
        return memo[L]
    memo[L] = False
    t = nd.terms(L)
    r = False
    if all(v >= 0 for v in t.values()) and all(not m for m in t):
        r = True
    if not r:
        for h in hyps:
            ht = nd.terms(h)
            for m, cf in ht.items():
                if m and m in t and t[m] / cf > 0:
                    d = nd.sub(L, nd.mul(num(t[m] / cf), h))
                    dt = nd.terms(d)
                    if all(not k for k in dt) and all(v >= 0 for v in dt.values()):
                        r = True
    if not r and depth > 0:
        for m, cf in t.items():
            if len(m) != 1 or m[0][1] != 1:
                continue
            a = m[0][0]
            if a.op not in ('min', 'max', 'ite'):
                continue
            rest = nd.from_terms({k: v for k, v in t.items() if k != m})
            if a.op == 'ite':
                ok = all(prove_ge0(nd.assume(nd.add(rest, nd.mul(num(cf), x)), a.args[0], v), hyps, depth - 1, memo)
                         for x, v in ((a.args[1], True), (a.args[2], False)))
            else:
                some = (a.op == 'max') == (cf > 0)
                ok = (any if some else all)(prove_ge0(nd.add(rest, nd.mul(num(cf), x)), hyps, depth - 1, memo) for x in a.args)
            if ok:
                r = True
                break
    memo[L] = r
    return r


def c02_step(c, s, lab):
    w = s.w
    f = {}
    table = {}
    for a in ('s_w', 's_g'):
        n = s.field(a)
        for x in list(nd.walk(n)):
            if x.op == 'loopval':
                cnt = s.loop_count(x.args[0])
                ms = [y for y in nd.walk(cnt) if y.op == 'fn' and y.args[0] == 'int' and 'max_substeps' in nd.show(y)]
                raw = [y for y in nd.walk(cnt) if y.op == 'get' and 'max_substeps' in nd.show(y)]
                hy = [nd.sub(y, ONE) for y in ms + raw]
                if prove_ge0(nd.sub(cnt, ONE), hy):
                    c.add('at least one substep', '%s (%s)' % (a, lab), 'proved')
                else:
                    k = {y: scalar('ms') for y in ms + raw}
                    c.holds('at least one substep', '%s (%s)' % (a, lab), nd.ge(nd.subst(cnt, k), ONE), w, ranges=[('ms', 1, 30, 'int')])
        n = nd.subst(n, {x: x.args[2] for x in nd.walk(n) if x.op == 'loopval'})
        f[a] = simplify(n, table)
    so = nd.sub(ONE, nd.add(f['s_w'], f['s_g']))
    for rule, L in (('connate water', nd.sub(f['s_w'], SWC)), ('critical gas', nd.sub(f['s_g'], SGC)), ('residual oil', nd.sub(so, SOR))):
        if prove_ge0(L, [HYP]):
            c.add(rule, lab, 'proved')
        else:
            c.holds(rule, lab, nd.ge(nd.add(L, num(Fr(1, 10 ** 7))), ZERO), w, points=400,
                    where=locate(w, s.field('s_g' if rule == 'critical gas' else 's_w')),
                    ranges=[('mu', -0.5, 1.5, 'lin'), ('inc', -2, 2, 'lin'), ('.sw_cr', 0, 0.4, 'lin'), ('.so_r', 0, 0.4, 'lin'), ('.sg_cr', 0, 0.2, 'lin')])


# ---------------------------------------------------------------------------- C14
def flag_atoms(n):
    """truth tests of a convergence flag returned by a linear solver"""
    return [x for x in nd.walk(n) if x.op == 'truthy' and any(y.op == 'linsolve' for y in nd.walk(x)) and x.args[0].op == 'item'
            and x.args[0].args[0].op == 'linsolve']


def assume_all(n, lits):
    for a, v in lits:
        n = nd.assume(n, a, v)
    return n


def state_fields(w):
    """(label, getter) of every location of the simulator objects one step can write"""
    out = []
    names = {r.loc: nm for nm, r in w.objs()}
    for (loc, key), s in w.frozen.items():
        if loc in names:
            out.append((names[loc] + '.' + key, s, lambda st, loc=loc, key=key: w.ip.node(st, st.heap[loc].attrs[key])))
        else:
            out.append((str(s.args[0]), s, lambda st, loc=loc, key=key: w.ip.node(st, st.heap[loc].entries[key])))
    return out


def C14(c):
    c.rule('success', 'when the pressure solver converges the step reports success')
    c.rule('failure', 'when no pressure solution of any attempt converges the step reports failure')
    c.rule('failed step changes nothing', 'after a failed step pressure and saturations (sequential: every stored quantity, balances included) are those from before')
    c.rule('flag', 'success is reported if and only if one of the solver calls made reported convergence')
    c.rule('accepted solution', 'the pressure kept is the solution of a solver call that reported convergence')
    c.rule('newton', 'the fully implicit scheme reports success only with a residual norm below twenty times the Newton tolerance')
    for lab, s in steps(c, 'flag'):
        guarded(c, 'flag', lab, c14_step, c, s, lab)
    s = guarded(c, 'flag', 'AMG pressure solver', Step, c, pvt=False, wells=PROD, sources=SRC, converged=None, sim={'pressure_solver': string('amg')}, amg=True)
    if s is not None:
        def amg():
            for st, v in s.good:
                dep = [x for x in nd.walk(v) if x.op == 'sym' and str(x.args[0]).startswith('amg.')] or flag_atoms(v)
                c.ok('flag', 'AMG pressure solver', bool(dep) or v is FALSE, 'the step reports success whatever the multigrid solver did',
                     where=locate(s.w, s.w.nodeof(s.w.fl, 'pressure', st)))
        guarded(c, 'flag', 'AMG pressure solver', amg)


def c14_step(c, s, lab):
    w = s.w
    seq = lab.startswith('sequential')
    if not s.good:
        raise AnalysisError('no exit')
    for st, v in s.good:
        if not nd.is_bool(v):
            v = nd.truthy(v)
        if 'not converged' in lab:
            c.ok('failure', lab, v is FALSE, 'the step reports %s' % nd.show(v, 3))
        elif 'converged' in lab:
            c.ok('success', lab, v is TRUE, 'the step reports %s' % nd.show(v, 3))
            continue
        else:
            fl = sorted(set(flag_atoms(v)) | set(flag_atoms(w.nodeof(w.fl, 'pressure', st))), key=lambda x: x.id)
            if seq:
                if not fl or len(fl) > 4:
                    raise AnalysisError('%d convergence flags' % len(fl))
                for k in range(2 ** len(fl)):
                    lits = [(f, bool(k >> i & 1)) for i, f in enumerate(fl)]
                    got = assume_all(v, lits)
                    if got.op != 'bool':
                        raise AnalysisError('success is not decided by the convergence flags: ' + nd.show(got, 4))
                    c.ok('flag', '%s, flags %s' % (lab, ''.join('01'[b] for _, b in lits)), got is (TRUE if any(b for _, b in lits) else FALSE),
                         'the step reports %s although the solver calls reported %s' % (nd.show(got), ', '.join(str(b) for _, b in lits)),
                         where=locate(w, v))
                p = nd.assume(w.nodeof(w.fl, 'pressure', st), v, True)
                for f in fl:
                    L = f.args[0].args[0]
                    pf = assume_all(nd.assume(p, f, False), [(nd.assume(v, f, False), True)])
                    leaves = value_leaves(pf)
                    c.ok('accepted solution', '%s, call %d' % (lab, fl.index(f)), not any(L is x or (x.op in ('item', 'idx') and L in list(nd.walk(x))) for x in leaves),
                         'the step keeps the solution of a solver call that did not converge', where=locate(w, L))
        for nm, old, get in state_fields(w):
            if not nm.startswith(('fluid.', 'sim.')) or (not seq and nm not in ('fluid.pressure', 'fluid.s_w', 'fluid.s_g', 'fluid.s_o')):
                continue
            guarded(c, 'failed step changes nothing', nm + ' ' + lab, unchanged, c, w, nm, old, get(st), v, lab, seq)
        if not seq:
            newton(c, w, v, lab)


def unchanged(c, w, nm, old, n, v, lab, seq):
    c0 = '%s (%s)' % (nm, lab)
    got = nd.assume(n, v, False) if v.op != 'bool' else n
    if got is old:
        c.add('failed step changes nothing', c0, 'proved')
        return
    if nm.endswith('.s_o'):
        # s_o is recomputed after a rollback: it is the old value because the sum is one before the step
        want = nd.sub(ONE, nd.add(w.nodeof(w.fl, 's_w', w.st), w.nodeof(w.fl, 's_g', w.st)))
        if got.op == 'loopval':
            i, b = got.args[1], got.args[2]
            if i is old and nd.assume(b, v, False) in (want, old) or b in (want, old):
                c.add('failed step changes nothing', c0, 'proved')
                return
        if got is want:
            c.add('failed step changes nothing', c0, 'proved')
            return
    if got.op == 'loopval':
        i, b = got.args[1], got.args[2]
        if i is old and (b is old or b is got.args[3]):
            c.add('failed step changes nothing', c0, 'proved')
            return
    lv = value_leaves(got)
    if all(x is old for x in lv):
        c.add('failed step changes nothing', c0, 'proved')
        return
    if got.op == 'loopval' or any(x.op in ('mu', 'loopval') for x in lv):
        ex = carried(w, got, old)
        if ex is None:
            c.add('failed step changes nothing', c0, 'proved')
            return
        got = ex
    c.equal('failed step changes nothing', c0, got, old, w, where=locate(w, got), what=nm + ' after a failed step')


def value_leaves(n, out=None):
    out = [] if out is None else out
    if n.op == 'ite':
        value_leaves(n.args[1], out)
        value_leaves(n.args[2], out)
    elif n.op == 'idx' and n.args[0].op == 'ite':
        value_leaves(n.args[0], out)
    else:
        out.append(n)
    return out


def carried(w, n, old, seen=None):
    """None if every value n can take, followed through loops, is old; else an offending node"""
    seen = set() if seen is None else seen
    if n in seen or n is old:
        return None
    seen.add(n)
    for x in value_leaves(n):
        if x is old:
            continue
        if x.op == 'loopval':
            for y in (x.args[1], x.args[2]):
                r = carried(w, y, old, seen)
                if r is not None:
                    return r
        elif x.op == 'mu':
            t = w.ip.loop_table.get(x.args[0], {}).get(x)
            if t is None:
                raise AnalysisError('a loop variable without recurrence: ' + nd.show(x))
            for y in t:
                r = carried(w, y, old, seen)
                if r is not None:
                    return r
        else:
            return x
    return None


def newton(c, w, v, lab):
    tol = [x for x in nd.walk(v) if x.op == 'get' and string('newton_tolerance') in x.args]
    if not tol:
        raise AnalysisError('the result does not mention the Newton tolerance')
    tol = tol[0]
    T = scalar('tol')
    memo, norms = {}, []

    def ab(x):
        """keep gates, comparisons and sums; the tolerance and norms become symbols, the rest is free"""
        r = memo.get(x)
        if r is not None:
            return r
        if x is tol:
            r = T
        elif x.op in ('num', 'bool'):
            r = x
        elif x.op == 'red' and x.args[0] == 'norm' or x.op == 'red' and x.args[0] is string('norm'):
            r = scalar('norm%d' % len(norms))
            norms.append(r)
        elif x.op in ('poly', 'gt0', 'eq0', 'and', 'or', 'not', 'ite', 'min', 'max'):
            r = nd.rebuild(x, ab)
        else:
            r = scalar('free%d' % len(memo))
            if nd.is_bool(x):
                r = nd.gt0(r)
        memo[x] = r
        return r
    a = ab(v)
    if not norms:
        raise AnalysisError('the result does not depend on a residual norm')
    ok = nd.orn(*[nd.gt0(nd.sub(nd.mul(num(Fr(201, 10)), T), x)) for x in norms])
    c.holds('newton', lab, nd.orn(nd.notn(a), ok), w, ranges=[('tol', 0.001, 0.001, 'lin'), ('norm', 0, 0.06, 'lin'), ('free', -5, 40, 'lin')], points=600,
            where=locate(w, v), what='success only near convergence')


# ---------------------------------------------------------------------------- C15
class Run:
    """Simulator.run with the time step replaced by its contract: new fields and a success flag"""
    FIELDS = ('pressure', 's_w', 's_g', 's_o')

    def __init__(self, c, solver='impes', vtk=FALSE, fail=None, **kw):
        self.w = w = World(pvt=False, wells=PROD, solver=solver, sources=SRC, **kw)
        ip = w.ip
        self.cur = {}

        def stub(ip, st, args, kw):
            n = sum(1 for e in ip.events if e.kind == 'step')
            ok = mk('flag', 'ok%d' % n)
            ip.event('step', 'run_step', [ip.node(st, a) for a in list(args[1:]) + list(kw.values())][:1], {}, st, None)
            for a in self.FIELDS:
                g = grid('now%d.%s' % (n, a))
                cell = st.heap[w.fl.loc]
                at = dict(cell.attrs)
                at[a] = ip.tensor(st, g, 'grid')
                st.heap[w.fl.loc] = OC(cell.cls, at, cell.base)
            return ok
        m = w.method(w.sim, 'run_step')
        ip.stubs[m.qual] = stub
        n0 = len(ip.events)
        try:
            f = w.method(w.sim, 'run')
        except AnalysisError as e:
            raise Broken(str(e))
        self.exits = ip.run_exits(f, [w.sim, sym('outname')], {'save_vtk': vtk}, w.st)
        self.events = ip.events[n0:]
        c.absorb(ip)
        self.steps = [e for e in self.events if e.kind == 'step']
        if not self.steps:
            raise AnalysisError('run makes no time step')
        self.loop = self.steps[0].loops[0] if self.steps[0].loops else None

    def lits(self, e):
        """path condition of an event inside run"""
        return [p for p in e.pc if p not in self.w.st.pc]


def C15(c):
    c.rule('number of steps', 'a run makes total time over step length steps')
    c.rule('step length', 'every step of a run has the configured length')
    c.rule('every iteration steps', 'the step is made in every iteration, unconditionally')
    c.rule('stop at failure', 'after a finally failed step no further step is made; after a successful one the run goes on')
    c.rule('pictures', 'an intermediate picture is written exactly at multiples of the save interval (when the interval is shorter than the run) and carries the step number')
    c.rule('current fields', 'an intermediate picture shows the fields after the step')
    c.rule('covers the step', 'a successful step advances the fields by the whole step length')
    for sv in ('impes', 'fully_implicit'):
        lab = {'impes': 'sequential', 'fully_implicit': 'fully implicit'}[sv]
        r = guarded(c, 'number of steps', lab, Run, c, sv)
        if r is not None:
            guarded(c, 'number of steps', lab, c15_run, c, r, lab)
    for lab, s in steps(c, 'covers the step', flags=(None,), kinds=(False,)):
        guarded(c, 'covers the step', lab.split(',')[0], c15_cover, c, s, lab.split(',')[0])


TOTAL, STEP = scalar('total_days'), scalar('step_days')


def c15_run(c, r, lab):
    w = r.w
    ip = w.ip
    if r.loop is None or any(e.loops[:1] != (r.loop,) for e in r.steps):
        raise AnalysisError('the steps are not made in one loop')
    if any(len(e.loops) > 1 for e in r.steps):
        raise AnalysisError('nested step loops')
    base = r.loop.args[0]
    if base.op != 'range' or base.args[2] is not ONE:
        raise AnalysisError('the step loop is not a counted loop: ' + nd.show(base, 3))
    cnt = nd.sub(base.args[1], base.args[0])
    mp = {}
    for x in nd.walk(mk('tuple', cnt, *[e.args[0] for e in r.steps])):
        if x.op == 'get' and string('total_time_days') in x.args:
            mp[x] = TOTAL
        if x.op == 'get' and string('time_step_days') in x.args:
            mp[x] = STEP
    n = scalar('steps')
    for what, eps in (('exact ratio', 0), ('ratio rounded down', Fr(-1, 10 ** 12)), ('ratio rounded up', Fr(1, 10 ** 12))):
        got = nd.subst(nd.subst(cnt, mp), {TOTAL: nd.mul(n, STEP, num(1 + eps))})
        c.equal('number of steps', '%s, %s' % (lab, what), got, n, w, ranges=[('steps', 1, 400, 'int'), ('step_days', 0.01, 30, 'log')],
                where=r.steps[0].where(), what='number of steps')
    for k, e in enumerate(r.steps):
        what = lab if k == 0 else lab + ', retry'
        c.equal('step length', what, nd.subst(e.args[0], mp), nd.mul(STEP, num(86400)), w, where=e.where(), what='length of a step in seconds')
    e0 = r.steps[0]
    c.ok('every iteration steps', lab, not r.lits(e0), 'the step is made only if %s' % [nd.show(p, 3) for p in r.lits(e0)], where=e0.where())
    back = ip.loop_back.get(r.loop, TRUE)
    oks = [mk('flag', 'ok%d' % k) for k in range(len(r.steps))]
    for k in range(2 ** len(oks)):
        lits = [(nd.truthy(f), bool(k >> i & 1)) for i, f in enumerate(oks)]
        got = assume_all(back, lits)
        first = all(v for f, v in lits[:1])
        want = any(v for f, v in lits)
        c.ok('stop at failure', '%s %s' % (lab, ''.join('01'[v] for _, v in lits)), got is (TRUE if want else FALSE),
             'after steps that reported %s the run goes on if %s' % ([v for _, v in lits], nd.show(got, 3)), where=e0.where())
    # pictures
    figs = [e for e in r.events if e.kind == 'call' and str(e.name).endswith('savefig') and r.loop in e.loops]
    if not figs:
        raise AnalysisError('no picture is saved in the step loop')
    si = [x for e in figs for p in e.pc for x in nd.walk(p) if x.op == 'get' and string('save_interval') in x.args]
    if not si:
        raise AnalysisError('pictures do not depend on the save interval')
    S, I, M = scalar('interval'), scalar('it'), scalar('nsteps')
    iv = mk('iv', base)
    cond = nd.orn(*[nd.andn(*r.lits(e)) for e in figs])
    cond = assume_all(cond, [(nd.truthy(f), True) for f in oks])
    cond = nd.subst(nd.subst(cond, {si[0]: S, base.args[1]: M}), {iv: I})
    cond = nd.subst(cond, {mk('iv', nd.subst(base, {base.args[1]: M})): I})
    want = nd.eqn(mk('mod', nd.add(I, ONE), S), ZERO)
    c.equal('pictures', lab, cond, want, w, cond=nd.andn(nd.gt0(nd.sub(M, S)), nd.gt0(nd.sub(M, I))), points=max(c.points, 200),
            ranges=[('interval', 1, 6, 'int'), ('it', 0, 30, 'int'), ('nsteps', 1, 40, 'int')], where=figs[0].where(), what='picture condition')
    for e in figs:
        nm = e.args[0] if e.args else e.kw.get('fname')
        c.ok('pictures', lab + ', name', nm is not None and any(x is nd.add(iv, ONE) for x in nd.walk(nm)), 'the file name %s does not carry the step number'
             % nd.show(nm, 4), where=e.where())
    ims = [e for e in r.events if e.kind == 'call' and str(e.name).endswith('imshow') and r.loop in e.loops]
    if not ims:
        raise AnalysisError('no picture is drawn in the step loop')
    for k, e in enumerate(ims):
        data = mk('tuple', *[a for a in e.args if isinstance(a, N)])
        lv = [x for x in nd.walk(data) if x.op in ('sym', 'mu') and nd.SHAPES.get(x) == 'grid' or x.op == 'mu']
        olds = [x for x in lv if not str(x.args[0]).startswith('now')]
        c.ok('current fields', '%s, image %d' % (lab, k), not olds, 'the picture shows %s, which is not the field after the step'
             % ', '.join(nd.show(x, 2) for x in olds[:3]), where=e.where())


def c15_cover(c, s, lab):
    w = s.w
    for st, v in s.good:
        bad = []
        for a in ('pressure', 's_w'):
            for x in nd.walk(w.nodeof(w.fl, a, st)):
                if x.op == 'mu':
                    t = w.ip.loop_table.get(x.args[0], {}).get(x)
                    if t and t[0] is DT and t[1] is not x and t[1] is not DT and x not in bad:
                        bad.append(x)
        c.ok('covers the step', lab, not bad, 'the accepted attempt advances by %s, which shrinks from attempt to attempt' % (nd.show(bad[0]) if bad else ''),
             where=locate(w, bad[0]) if bad else '')


RULES = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}

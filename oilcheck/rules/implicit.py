"""Fully implicit scheme: C43 C44 C45."""
from fractions import Fraction as Fr
from .. import nodes as nd
from ..nodes import num, sym, mk, string, ZERO, ONE, TRUE, FALSE, N
from ..world import scalar, grid, DT
from ..interp import AnalysisError
from ..lib import guarded, locate
from ..ri import RI, Skip, Unfollowed, close
from .fluidrules import diff
from .state import steps, simplify, prove_ge0, value_leaves, SWC, SOR

PLO, PHI = num(10 ** 5), num(10 ** 8)
MS, MP = scalar('state.water'), scalar('state.pressure')
HYPS = {'s_w': (MS, SWC, nd.sub(ONE, SOR)), 'pressure': (MP, PLO, PHI)}
LIMIT = {'s_w': num(Fr('0.1')), 'pressure': None}
NAMES = {'s_w': 'water saturation', 'pressure': 'pressure'}


# ---------------------------------------------------------------------------- C43
def C43(c):
    c.rule('limits', 'every value a fully implicit step can leave in water saturation and pressure is the old one or inside the limits, whatever the linear solves return')
    c.rule('bounded update', 'one Newton iteration changes water saturation by at most 0.1 and pressure by at most ten per cent and 2 MPa')
    c.rule('updates found', 'the step contains a Newton loop that updates pressure and water saturation')
    for lab, s in steps(c, 'limits', solvers=('fully_implicit',)):
        guarded(c, 'limits', lab, c43_step, c, s, lab)


def states(w, a):
    """loop variables and entry value of one field: {node: symbol standing for a value inside the limits}"""
    m = {w.nodeof(w.fl, a, w.st): HYPS[a][0]}
    key = 'h%d.%s' % (w.fl.loc, a)
    for t in w.ip.loop_table.values():
        for mu in t:
            if mu.op == 'mu' and mu.args[1] == key:
                m[mu] = HYPS[a][0]
    return m


def reach(w, n, done, out):
    """values that can be stored: leaves of n, followed through loops; out: {(leaf, loop variable or None): 1}"""
    for x in value_leaves(n):
        if x in done:
            continue
        done.add(x)
        if x.op == 'loopval':
            for y in (x.args[1], x.args[2]):
                reach(w, y, done, out)
            if x.args[3].op == 'mu':
                reach(w, x.args[3], done, out)
        elif x.op == 'mu':
            t = w.ip.loop_table.get(x.args[0], {}).get(x)
            if t is None:
                raise AnalysisError('a loop variable without recurrence: ' + nd.show(x))
            for y in t:
                reach(w, y, done, out)
        else:
            out.append(x)
    return out


def backs(w, done):
    """loop variables met, with the values one round gives them"""
    for mu in [x for x in done if x.op == 'mu']:
        for x in value_leaves(w.ip.loop_table[mu.args[0]][mu][1]):
            if x is not mu and x.op not in ('loopval', 'mu'):
                yield mu, x


def relax(n):
    """an over-approximation arithmetic can evaluate: solver output, reductions and loop results are free"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('num', 'bool', 'get') or x in (MS, MP) or x is DT:
            r = x
        elif x.op == 'red' and str(x.args[0]) in ('max', 'min') and len(x.args) > 1 and isinstance(x.args[1], nd.N):
            f = scalar('free%d' % len(memo))
            r = (nd.maxn if str(x.args[0]) == 'max' else nd.minn)(go(x.args[1]), f)
        elif x.op == 'fn' and str(x.args[0]) in ('sign', 'exp', 'sqrt', 'tanh', 'int', 'float'):
            r = nd.rebuild(x, go)
        elif x.op in ('poly', 'pow', 'min', 'max', 'ite', 'abs', 'gt0', 'eq0', 'not', 'and', 'or'):
            r = nd.rebuild(x, go)
        elif nd.is_bool(x):
            r = nd.gt0(nd.sub(scalar('gate%d' % len(memo)), num(Fr(1, 2))))
        else:
            r = scalar('free%d' % len(memo))
        memo[x] = r
        return r
    return go(n)


def whole_field(n, seen=None):
    """does a value (gates aside) use a reduction over the whole field?"""
    seen = set() if seen is None else seen
    if n in seen:
        return False
    seen.add(n)
    if n.op == 'red':
        return True
    if n.op == 'ite':
        return any(whole_field(x, seen) for x in n.args[1:])
    if n.op == 'poly':
        return any(whole_field(at, seen) for m, _ in n.args for at, _ in m)
    if n.op in ('min', 'max', 'abs', 'pow'):
        return any(whole_field(x, seen) for x in n.args)
    return False


def ge0(c, rule, what, L, hyps, w, where, text, unit):
    """L >= 0 from the hypotheses"""
    if prove_ge0(simplify(L, {}, (MS, MP)), hyps):
        c.add(rule, what, 'proved')
        return
    if whole_field(L):
        raise AnalysisError('a bound that depends on a reduction over the whole field')
    t = scalar('state.t')
    R = nd.subst(relax(L), {MS: nd.add(SWC, nd.mul(t, nd.sub(nd.sub(ONE, SOR), SWC)))})
    big = 4 if unit is ONE else 10 ** 8
    c.holds(rule, what, nd.ge(nd.add(nd.div(R, unit), num(Fr(1, 10 ** 6))), ZERO), w, points=400, where=where, what=text,
            ranges=[('state.t', 0, 1, 'lin'), ('state.pressure', 1.0e5, 1.0e8, 'log'), ('gate', 0, 1, 'lin'), ('free', -big, big, 'lin'),
                    ('.sw_cr', 0, 0.4, 'lin'), ('.so_r', 0, 0.4, 'lin')])


def c43_step(c, s, lab):
    w = s.w
    if not s.good:
        raise AnalysisError('no exit')
    sub = {}
    for a in ('s_w', 'pressure'):
        sub.update(states(w, a))
    sub.update({nd.absn(k): v for k, v in list(sub.items()) if v is MP})
    for a in ('s_w', 'pressure'):
        x, lo, hi = HYPS[a]
        hyps = [nd.sub(x, lo), nd.sub(hi, x), nd.sub(hi, lo)]
        unit = ONE if a == 's_w' else PLO
        done = set()
        vals = []
        for st, _ in s.good:
            reach(w, w.nodeof(w.fl, a, st), done, vals)
        old = w.nodeof(w.fl, a, w.st)
        seen = {}
        for v in vals:
            if v is old:
                continue
            q = nd.subst(v, sub)
            if q in seen:
                continue
            seen[q] = 1
            n = len(seen)
            for nm, L in (('lower', nd.sub(q, lo)), ('upper', nd.sub(hi, q))):
                ge0(c, 'limits', '%s, %s limit%s' % (NAMES[a], nm, '' if n == 1 else ' (%d)' % n), L, hyps, w, locate(w, v),
                    '%s at or inside its %s limit after a fully implicit step' % (NAMES[a], nm), unit)
        if all(v is old for v in vals):
            c.add('limits', NAMES[a], 'proved')
        seen, found = {}, 0
        for mu, v in backs(w, done):
            if v is old:
                continue
            found += 1
            q = nd.subst(v, sub)
            if q in seen:
                continue
            seen[q] = 1
            d = nd.sub(q, x)
            lims = [num(Fr('0.1'))] if a == 's_w' else [num(2 * 10 ** 6), nd.mul(num(Fr('0.1')), MP)]
            for i, l in enumerate(lims):
                for nm, L in (('rise', nd.sub(l, d)), ('fall', nd.add(l, d))):
                    ge0(c, 'bounded update', '%s, %s%s%s' % (NAMES[a], nm, ('', ' relative')[i], '' if len(seen) == 1 else ' (%d)' % len(seen)), L, hyps, w,
                        locate(w, v), 'the change of %s in one Newton iteration stays in its bound' % NAMES[a], unit)
        c.ok('updates found', NAMES[a], found > 0, 'no Newton loop updates %s' % NAMES[a], where=locate(w, vals[0]) if vals else '')


# ---------------------------------------------------------------------------- the Newton system
NP, NS = grid('newton.pressure'), grid('newton.s_w')
NX, NY, NZ = scalar('nx'), scalar('ny'), scalar('nz')
PHASES = ('water', 'oil')


def solves(w, n):
    """solver calls a value depends on: (call, matrix, right-hand side)"""
    out = []
    for x in nd.walk(n):
        if x.op == 'linsolve' or x.op == 'call' and 'solve' in (nd.show(x.args[0]) if isinstance(x.args[0], N) else str(x.args[0])).split('.')[-1]:
            pos = [a for a in x.args[1:] if not (isinstance(a, N) and a.op == 'kw')]
            if len(pos) >= 2:
                a = pos[0]
                while a.op == 'call' and len(a.args) >= 2 and 'csr' in nd.show(a.args[0], 2):
                    a = a.args[1]
                out.append((x, a, pos[1]))
    return out


class Contribs:
    """an assembled vector or matrix: {(loops, index): value added}"""

    def __init__(self, n):
        self.g = {}
        self.add(n, ONE, frozenset())

    def put(self, rg, ix, v):
        k = (rg, tuple(ix) if isinstance(ix, (tuple, list)) else (ix,))
        self.g[k] = nd.add(self.g.get(k, ZERO), v)

    def add(self, n, f, rg):
        if n is ZERO:
            return
        if n.op == 'poly':
            for m, cf in n.args:
                acc = [(a, e) for a, e in m if a.op in ('sc', 'sum', 'loopval', 'upd') or a.op in ('poly', 'ite') and any(y.op in ('sc', 'upd') for y in nd.walk(a))]
                if len(acc) != 1 or acc[0][1] != 1:
                    raise AnalysisError('a term that is no contribution to an entry: ' + nd.show(n, 3))
                g = nd.mul(f, num(cf), *[nd.power(a, num(e)) for a, e in m if a is not acc[0][0]])
                self.add(acc[0][0], g, rg)
        elif n.op == 'upd':
            self.strided(n, f, rg)
        elif n.op == 'ite':
            self.add(n.args[1], nd.mul(f, nd.ite(n.args[0], ONE, ZERO)), rg)
            self.add(n.args[2], nd.mul(f, nd.ite(n.args[0], ZERO, ONE)), rg)
        elif n.op == 'sum':
            self.add(n.args[1], f, self.span(rg, n.args[0]))
        elif n.op == 'sc':
            self.put(rg, n.args[0], nd.mul(f, n.args[1]))
        elif n.op == 'loopval':
            lid, init, back, mu = n.args
            self.add(init, f, rg)
            r2 = self.span(rg, lid)
            cur = back
            while cur.op == 'upd':
                self.put(r2, cur.args[1], nd.mul(f, cur.args[2]))
                cur = cur.args[0]
            if cur is not mu:
                rest = nd.sub(cur, mu)
                if any(x is mu for x in nd.walk(rest)):
                    raise AnalysisError('an entry is computed from other entries of the same array')
                self.add(rest, f, r2)
        else:
            raise AnalysisError('a term that is no contribution to an entry: ' + nd.show(n, 3))

    def strided(self, n, f, rg):
        """x[a::2] = v on an array that was zero there"""
        cells = mk('range', ZERO, nd.mul(NX, NY, NZ), ONE)
        starts = set()
        while n.op == 'upd':
            k = n.args[1]
            if len(k) != 1 or not isinstance(k[0], tuple) or k[0][0] != 'sl' or len(k[0]) != 4 or k[0][2] is not None or k[0][3] is not num(2):
                raise AnalysisError('an assignment to a part of the array that is not followed')
            a = k[0][1] or ZERO
            if a in starts or a.op != 'num' or a.args[0] not in (0, 1):
                raise AnalysisError('assignments to the same part of the array')
            starts.add(a)
            iv = mk('iv', cells)
            self.put(rg | {cells}, (nd.add(nd.mul(num(2), iv), a),), nd.mul(f, nd.idx(n.args[2], (iv,))))
            n = n.args[0]
        if n is not ZERO:
            raise AnalysisError('an assignment over entries that were assembled before')

    def span(self, rg, lid):
        r = lid.args[0]
        if r.op != 'range' or r in rg:
            raise AnalysisError('a loop over ' + nd.show(r, 3))
        return rg | {r}


class Newton:
    """residual, matrix and line-search residuals of the Newton loop, as functions of the current pressure and water saturation"""

    def __init__(self, s):
        self.s = s
        self.w = w = s.w
        if not s.good:
            raise AnalysisError('no exit')
        self.keep = {}
        vals, done = [], set()
        for st, _ in s.good:
            for a in ('s_w', 'pressure'):
                reach(w, w.nodeof(w.fl, a, st), done, vals)
        self.calls = []
        for v in vals:
            for c in solves(w, v):
                if c not in self.calls:
                    self.calls.append(c)
        self.vals = vals
        if not self.calls:
            raise AnalysisError('no linear solve found in the Newton loop')
        self.sub = {}
        for a, g in (('pressure', NP), ('s_w', NS)):
            key = 'h%d.%s' % (w.fl.loc, a)
            for x in done:
                if x.op == 'mu' and x.args[1] == key:
                    self.sub[x] = g
        self.loops = {x.args[0] for x in self.sub}
        t = w.ip.loop_table
        for L, tab in t.items():
            for mu, (init, back) in tab.items():
                if mu not in self.sub and init is DT:
                    self.sub[mu] = DT
        for x in nd.walk(self.calls[0][2]):
            if x.op == 'eq' and string('stone2') in x.args:
                self.sub[x] = FALSE
            if x.op == 'mu' and x not in self.sub and x.args[0] in self.loops:
                init, back = t.get(x.args[0], {}).get(x, (None, None))
                if back is None:
                    continue
                first = nd.eqn(mk('iv', x.args[0].args[0]), ZERO)
                if nd.assume(back, first, False) is x:
                    self.sub[x] = nd.assume(back, first, True)
        self.memo = {}
        self.systems = [(c, self.at(A), nd.mul(num(-1), self.at(b))) for c, A, b in self.calls]
        self.where = locate(w, self.calls[0][0])

    def at(self, n):
        n = nd.subst(nd.subst(n, self.sub), {k: v for k, v in self.sub.items() if v in (NP, NS, DT, FALSE)})
        for L in self.loops:
            n = nd.subst(n, {nd.eqn(mk('iv', L.args[0]), ZERO): TRUE}) if False else n
        return n

    def trials(self):
        """residuals of the line search, evaluated where the trial update is nil"""
        out, seen = [], set()
        zero = {}
        for v in self.vals:
            for x in nd.walk(v):
                if x.op == 'idx':
                    b = x
                    while b.op == 'idx':
                        b = b.args[0]
                    if any(b is c[0] for c in self.calls):
                        zero[x] = ZERO
        for v in self.vals:
            for x in nd.walk(v):
                if x.op == 'red' and str(x.args[0]) == 'norm' and x not in seen:
                    seen.add(x)
                    n = self.at(x.args[1])
                    if not any(y is NP or y is NS for y in nd.walk(n)):
                        continue
                    out.append((x, self.inside(nd.subst(n, {k2: ZERO for k2 in self.images(zero)}))))
        return out

    def images(self, zero):
        return list(zero) + [self.at(x) for x in zero]

    def inside(self, n):
        """the state is inside the limits: clamping it changes nothing"""
        memo = {}
        bounds = {PLO: NP, PHI: NP, SWC: NS, nd.sub(ONE, SOR): NS}

        def go(x):
            r = memo.get(x)
            if r is None:
                r = nd.rebuild(x, go)
                if r.op in ('min', 'max'):
                    rest = [a for a in r.args if a not in bounds]
                    if len(rest) == 1 and len(rest) < len(r.args):
                        b = rest[0]
                        while b.op == 'idx':
                            b = b.args[0]
                        if all(b is bounds[a] for a in r.args if a in bounds):
                            r = rest[0]
                memo[x] = r
            return r
        return go(n)


def linear(ix):
    """index polynomial: is it 2*flat + phase?  returns (flat, phase)"""
    t = dict(nd.terms(ix))
    cst = t.pop((), Fr(0))
    k = int(cst) if cst == int(cst) else None
    if k is None or any(v % 2 for v in t.values()):
        return None
    return nd.add(nd.from_terms({m: v / 2 for m, v in t.items()}), num(k // 2)), k % 2


def flat_of(key):
    """flattened position of an element access"""
    if len(key) == 3 and all(isinstance(k, N) for k in key):
        return nd.add(nd.mul(key[0], NY, NZ), nd.mul(key[1], NZ), key[2])
    if len(key) == 1 and isinstance(key[0], N):
        return key[0]
    return None


def leaves(n, g):
    """element accesses of the field g in n: {node: flat position}"""
    out = {}
    for x in nd.walk(n):
        if x.op == 'idx':
            b = x.args[0]
            if b is g or b.op == 'idx' and b.args[0] is g and b.args[1] == ('flat',):
                k = x.args[1]
                if k == ('flat',):
                    continue
                f = flat_of(k)
                if f is None:
                    raise AnalysisError('an element access that is not followed: ' + nd.show(x, 3))
                out[x] = f
    return out


def loops_name(rg):
    def one(r):
        n = r.args[1]
        for nm, full in (('x', NX), ('y', NY), ('z', NZ)):
            if nd.sub(n, nd.sub(full, ONE)) is ZERO:
                return nm
        return ''
    if len(rg) == 1:
        return 'cells'
    return ''.join(sorted(one(r) for r in rg)) + ' faces'


def row_name(rg, r):
    f = linear(r)
    if f is None:
        return nd.show(r, 4)
    extra = {m: v for m, v in nd.terms(f[0]).items() if not any(a.op == 'iv' for a, _ in m)}
    side = '' if not rg or len(rg) < 2 else ', near side' if not extra else ', far side'
    return '%s, %s%s' % (loops_name(rg) if rg else well_name(f[0]), PHASES[f[1]], side)


# small grids: every contribution evaluated at every round of its loops
def tabulate(n, dims, seed, world):
    """{index: value} of an assembled array on a concrete grid"""
    over = {'nx': Fr(dims[0]), 'ny': Fr(dims[1]), 'nz': Fr(dims[2])}
    out = {}
    for (rg, ix), v in n.g.items():
        rg = sorted(rg, key=lambda r: r.id)
        base = RI(seed, dict(over), world.ip)
        spans = []
        for r in rg:
            lo, hi, st = (base.ev(x) for x in r.args)
            if not all(isinstance(x, Fr) and x.denominator == 1 for x in (lo, hi, st)) or st == 0 or hi - lo > 200:
                raise AnalysisError('a loop whose rounds are not counted: ' + nd.show(r, 3))
            spans.append([Fr(k) for k in range(int(lo), int(hi), int(st))])

        def rounds(i, env):
            if i == len(rg):
                ri = RI(seed, dict(over), world.ip)
                ri.memo.update(env)
                key = tuple(int(ri.numev(x)) for x in ix)
                out[key] = out.get(key, Fr(0)) + ri.numev(v)
                return
            for k in spans[i]:
                rounds(i + 1, {**env, mk('iv', rg[i]): k})
        rounds(0, {})
    return out


def compare(c, rule, got, want, w, names, where, text):
    """entry by entry where the loops agree, on small grids where they do not"""
    ga = {k[0] for k in got.g}
    wa = {k[0] for k in want.g}
    if ga == wa:
        for k in sorted(set(got.g) | set(want.g), key=lambda k: (names(k), str(k[1]))):
            a, b = got.g.get(k, ZERO), want.g.get(k, ZERO)
            c.equal(rule, names(k), a, b, w, where=locate(w, a) if a is not ZERO else where, what=text + ', ' + names(k))
        return
    try:
        for n, dims in enumerate(((3, 2, 2), (2, 3, 2), (2, 2, 3))):
            a, b = (tabulate(x, dims, 'grid%d' % n, w) for x in (got, want))
            bad = [k for k in sorted(set(a) | set(b)) if not close(a.get(k, Fr(0)), b.get(k, Fr(0)), Fr(1, 10 ** 5))]
            c.ok(rule, 'grid %dx%dx%d' % dims, not bad, '%s differs in entry %s' % (text, bad[:1]), where=where)
    except (Skip, Unfollowed):
        raise AnalysisError('no admissible point')


WELLS = [('producer, rate', dict(type='producer', control_type='rate')), ('injector, rate', dict(type='injector', control_type='rate')),
         ('producer, bhp', dict(type='producer', control_type='bhp')), ('injector, bhp', dict(type='injector', control_type='bhp'))]


def newtons(c, rule):
    for lab, s in steps(c, rule, solvers=('fully_implicit',), wells=[x for _, x in WELLS]):
        n = guarded(c, rule, lab, Newton, s)
        if n is not None:
            yield lab, n


def cell_of(i):
    return nd.add(nd.mul(scalar('w%d.i' % i), NY, NZ), nd.mul(scalar('w%d.j' % i), NZ), scalar('w%d.k' % i))


def well_name(f):
    for i, (nm, _) in enumerate(WELLS):
        if f is cell_of(i):
            return nm
    return 'well'


def density_at(ph, p):
    return nd.mul(scalar('cfg.rho_' + ph), nd.add(ONE, nd.mul(num(Fr(1, 10 ** 6)), scalar('cfg.c_' + ph), nd.sub(p, num(10 ** 5)))))


# ---------------------------------------------------------------------------- C44
def C44(c):
    c.rule('conservation', 'what a face adds to the residual of one cell it takes from the residual of the other, for water and for oil')
    c.rule('flux', 'a face connects a cell with its direct neighbour, and the flux is time step x harmonic transmissibility x mobility of one of the two cells x difference of the phase potential')
    c.rule('accumulation', 'the residual starts from the phase mass in the cell minus the mass before the step')
    c.rule('line search', 'the line search evaluates the same residual as the Newton system')
    c.rule('wells', 'a well adds only to the residual of its own cell')
    c.rule('reference state', 'after a successful step the stored previous state is the state reached')
    for lab, n in newtons(c, 'conservation'):
        guarded(c, 'conservation', lab, c44_one, c, n, lab)


def c44_one(c, n, lab):
    w = n.w
    R = Contribs(n.systems[0][2])
    if True:
        faces = {}
        for (rg, ix), v in R.g.items():
            f = linear(ix[0])
            if len(rg) >= 2 and f is not None:
                faces.setdefault((rg, f[1]), []).append(v)
        if not faces:
            raise AnalysisError('no face contributions in the residual')
        for (rg, ph), vs in sorted(faces.items(), key=lambda t: (loops_name(t[0][0]), t[0][1])):
            c.equal('conservation', '%s, %s' % (loops_name(rg), PHASES[ph]), nd.add(*vs), ZERO, w, where=locate(w, vs[0]), what='net amount a face adds')
        for (rg, ph), vs in sorted(faces.items(), key=lambda t: (loops_name(t[0][0]), t[0][1])):
            guarded(c, 'flux', '%s, %s' % (loops_name(rg), PHASES[ph]), face_flux, c, n, R, rg, ph)
        c.ok('conservation', 'faces in three directions', len(faces) == 6 or len({k[0] for k in faces}) != 3, 'a phase has no flux in some direction', where=n.where)
        acc = {}
        for (rg, ix), v in R.g.items():
            f = linear(ix[0])
            if len(rg) == 1 and f is not None:
                acc[f] = nd.add(acc.get(f, ZERO), v)
        if not acc:
            raise AnalysisError('no accumulation found')
        vol = nd.mul(*[scalar('cfg.d' + a) for a in 'xyz']) if False else w.nodeof(w.res, 'porous_volume')
        for (e, ph), v in sorted(acc.items(), key=lambda t: t[0][1]):
            at = lambda g: nd.idx(nd.idx(g, ('flat',)), (e,))
            pv = at(vol)
            s1, s0 = at(NS), at(w.nodeof(w.fl, 'prev_sw'))
            if ph:
                s1, s0 = nd.sub(ONE, s1), nd.sub(ONE, s0)
            want = nd.mul(pv, nd.sub(nd.mul(s1, density_at(PHASES[ph], at(NP))), nd.mul(s0, density_at(PHASES[ph], at(w.nodeof(w.fl, 'prev_pressure'))))))
            for k, x in enumerate(first_round(n, v)):
                c.equal('accumulation', '%s%s' % (PHASES[ph], ('', ', later rounds')[k]), x, want, w, where=locate(w, v), what='%s mass now minus before' % PHASES[ph])
        for st, v in n.s.good:
            ok = v if nd.is_bool(v) else nd.truthy(v)
            for a, b in (('prev_pressure', 'pressure'), ('prev_sw', 's_w')):
                x, y = (nd.assume(w.nodeof(w.fl, q, st), ok, True) if ok.op != 'bool' else w.nodeof(w.fl, q, st) for q in (a, b))
                if x is y:
                    c.add('reference state', a, 'proved')
                    continue
                code = {}
                px, py = coded(x, code), coded(y, code)
                if px is py:
                    c.add('reference state', a, 'proved')
                    continue
                extra = gates(px) - gates(py)
                for k in (0, 1):
                    sub = {mu: unroll(w, mu, k) for g in extra for mu in nd.walk(g) if mu.op in ('mu', 'iv')}
                    if not all(plain(nd.subst(g, sub)) for g in extra):
                        raise AnalysisError('cannot compare the stored previous state with the state reached')
                    q = relax(nd.mul(scalar('x'), nd.subst(nd.sub(px, py), sub)))
                    c.equal('reference state', '%s%s' % (a, ('', ', second attempt')[k]), q, ZERO, w, where=locate(w, x), what='%s is the %s the step reached' % (a, b), points=200,
                            ranges=[('gate', 0, 1, 'lin'), ('free', -4, 4, 'lin'), ('state.x', 1, 2, 'lin')])
    for i, (nm, _) in enumerate(WELLS):
        mine = [(k, v) for k, v in R.g.items() if not k[0] and any(x in set(nd.walk(v)) for x in (scalar('w%d.value' % i),))]
        if not mine:
            raise AnalysisError('no residual contribution of a well')
        for (rg, ix), v in mine:
            f = linear(ix[0])
            c.equal('wells', '%s, %s' % (nm, PHASES[f[1]] if f else '?'), f[0] if f else ix[0], cell_of(i), w, where=locate(w, v), what='cell the well contributes to')
    tr = n.trials()
    tr = [(x, q) for x, q in tr if not (q is n.systems[0][2])] or tr
    if not tr:
        raise AnalysisError('no line search residual found')
    seen = set()
    for x, q in tr:
        if q in seen:
            continue
        seen.add(q)
        compare(c, 'line search', Contribs(q), R, w, lambda k: row_name(k[0], k[1][0]), locate(w, x), 'residual used by the line search against the Newton residual')


def coded(n, code):
    """the choice a field is made by: its leaves numbered"""
    if n.op == 'ite':
        return nd.ite(n.args[0], coded(n.args[1], code), coded(n.args[2], code))
    return num(code.setdefault(n, len(code) + 1))


def gates(n):
    """conditions a choice tests"""
    return {x.args[0] for x in nd.walk(n) if x.op == 'ite'}


def plain(g):
    """is a condition arithmetic on settings?"""
    return all(x.op in ('num', 'bool', 'str', 'none', 'sym', 'get', 'poly', 'pow', 'min', 'max', 'abs', 'ite', 'gt0', 'eq0', 'not', 'and', 'or') and nd.shape_of(x) == 'scalar'
               or x.op in ('str', 'none') or x.op == 'sym' for x in nd.walk(g))


def unroll(w, mu, k):
    """a loop variable in round k, if it depends on nothing but itself"""
    if mu.op == 'iv':
        return nd.add(mu.args[0].args[0], nd.mul(num(k), mu.args[0].args[2])) if mu.args[0].op == 'range' else mu
    init, back = w.ip.loop_table.get(mu.args[0], {}).get(mu, (None, None))
    if back is None:
        return mu
    if k == 0:
        return init
    if any(x.op in ('mu', 'loopval') and x is not mu for x in nd.walk(back)):
        return mu
    return nd.subst(back, {mu: init})


STEPS = {'x': nd.mul(NY, NZ), 'y': NZ, 'z': ONE}


def face_flux(c, n, R, rg, ph):
    w = n.w
    ax = loops_name(rg).split()[0]
    name = '%s faces, %s' % (ax, PHASES[ph])
    if ax not in STEPS or len(rg) != 3:
        raise AnalysisError('faces in a loop that is not followed')
    rows = {}
    for (r, ix), v in R.g.items():
        f = linear(ix[0])
        if r == rg and f is not None and f[1] == ph:
            rows[f[0]] = v
    byname = {}
    for r in rg:
        for nm, full in (('x', NX), ('y', NY), ('z', NZ)):
            if nd.sub(r.args[1], nd.sub(full, ONE) if nm == ax else full) is ZERO and r.args[0] is ZERO and r.args[2] is ONE:
                byname.setdefault(nm, r)
    if len(set(byname.values())) != 3:
        raise AnalysisError('faces in a loop that is not followed')
    near = nd.add(*[nd.mul(mk('iv', byname[k]), STEPS[k]) for k in 'xyz'])
    far = nd.add(near, STEPS[ax])
    where = locate(w, next(iter(rows.values())))
    if not c.ok('flux', name + ', cells', set(rows) == {near, far}, 'the two cells of a face are not direct neighbours', where=where):
        return
    vec = lambda g, e: nd.idx(nd.idx(g, ('flat',)), (e,))
    perm = w.nodeof(w.res, 'permeability_' + ax)
    k1, k2 = vec(perm, near), vec(perm, far)
    d = {a: scalar('d' + a) for a in 'xyz'}
    area = nd.mul(*[d[a] for a in 'xyz' if a != ax])
    T = nd.div(nd.mul(num(2), DT, k1, k2, area), nd.mul(nd.add(k1, k2), d[ax]))

    def curve(fn):
        v, st, _ = w.call(w.fl, fn, [w.ip.tensor(w.st, NS, 'grid')], st=None)
        return n.at(w.ip.node(st, v))
    kr = curve(('calc_water_kr', 'calc_oil_kr')[ph])
    dpot = nd.sub(vec(NP, far), vec(NP, near))
    if ph == 0:
        pc = curve('calc_capillary_pressure')
        scale = n.at(w.nodeof(w.fl, 'pc_scale'))
        dpot = nd.sub(dpot, nd.ite(nd.gt0(scale), nd.sub(vec(pc, far), vec(pc, near)), ZERO))
    if ax == 'z':
        rho = [density_at(PHASES[ph], vec(NP, e)) for e in (near, far)]
        dpot = nd.sub(dpot, nd.mul(num(Fr('9.81') / 2), nd.add(*rho), d['z']))
    mu = n.at(w.nodeof(w.fl, 'mu_' + PHASES[ph]))
    f1, f2 = (nd.neg(nd.mul(T, nd.div(vec(kr, e), mu), dpot)) for e in (near, far))
    v = rows[near]
    tol = num(Fr(1, 10 ** 5))
    err = nd.minn(nd.absn(nd.sub(v, f1)), nd.absn(nd.sub(v, f2)))
    c.holds('flux', name, nd.ge(nd.mul(tol, nd.add(nd.absn(f1), nd.absn(f2))), err), w, where=where, what='flux is transmissibility x mobility of one of the two cells x potential difference')


def first_round(n, v):
    """the value in the first Newton round and in later ones"""
    g = [x for x in nd.walk(v) if x.op == 'eq0' and any(x.args[0] is mk('iv', L.args[0]) for L in n.loops)]
    if not g:
        return [v]
    return [nd.assume(v, g[0], True), nd.assume(v, g[0], False)]


# ---------------------------------------------------------------------------- C45
def C45(c):
    c.rule('derivative', 'every entry of the Newton matrix is the derivative of the residual of its row with respect to the unknown of its column')
    c.rule('one system', 'every solver branch solves the same system')
    c.rule('regularisation', 'the regularisation is added to the diagonal only')
    for lab, n in newtons(c, 'derivative'):
        guarded(c, 'derivative', lab, c45_one, c, n, lab)


def c45_one(c, n, lab):
    w = n.w
    A0, R0 = n.systems[0][1:]
    if True:
        for call, A, R in n.systems[1:]:
            c.equal('one system', 'residual', R, R0, w, where=locate(w, call), what='right-hand side of the solver branches')
            c.equal('one system', 'matrix', A, A0, w, where=locate(w, call), what='matrix of the solver branches')
    R, J = Contribs(R0), Contribs(A0)
    reg = [(k, v) for k, v in J.g.items() if not any(g in set(nd.walk(v)) for g in (NP, NS)) and any('regul' in nd.show(x) for x in nd.walk(v) if x.op == 'get')]
    for k, v in reg:
        del J.g[k]
        if True:
            c.ok('regularisation', 'diagonal', len(k[1]) == 2 and k[1][0] is k[1][1], 'the regularisation reaches entries off the diagonal', where=locate(w, v))
    incompressible = {scalar('cfg.res.c_rock'): ZERO}
    frozen = {scalar('cfg.c_oil'): ZERO, scalar('cfg.c_water'): ZERO}
    want = {}
    for (rg, (r,)), v in R.g.items():
        for g, off in ((NP, 0), (NS, 1)):
            lv = leaves(v, g)
            for fl in set(lv.values()):
                y = scalar('unknown')
                same = {x: y for x, f in lv.items() if f is fl}
                vv = nd.subst(v, frozen) if g is NP and len(rg) > 1 else v
                d = nd.subst(diff(nd.subst(vv, same), y), {y: next(iter(same))})
                k = (rg, (r, nd.add(nd.mul(num(2), fl), num(off))))
                want[k] = nd.add(want.get(k, ZERO), d)
    if {k[0] for k in J.g} != {k[0] for k in R.g}:
        raise AnalysisError('matrix and residual are assembled in different loops')
    for k in sorted(set(J.g) | set(want), key=lambda k: (row_name(k[0], k[1][0]), str(k[1]))):
        rg, (r, col) = k
        a, b = J.g.get(k, ZERO), want.get(k, ZERO)
        cf = linear(col)
        if cf is not None and cf[1] == 0 and len(rg) > 1:
            a, b = nd.subst(a, frozen), nd.subst(b, frozen)
        a, b = (first_order(nd.subst(x, incompressible)) for x in (a, b))
        if a is ZERO and b is ZERO:
            continue
        nm = '%s, by %s %s' % (row_name(rg, r), ('pressure', 'saturation')[cf[1]] if cf else '?', side(rg, col))
        c.equal('derivative', nm.strip(), a, b, w, where=locate(w, J.g.get(k, ZERO)) if k in J.g else n.where,
                what='matrix entry against the derivative of the residual: ' + nm, points=40)


def first_order(n):
    """the part of a value that is at most linear in the fluid compressibilities"""
    cs = [scalar('cfg.c_water'), scalar('cfg.c_oil')]
    zero = {x: ZERO for x in cs}
    return nd.add(nd.subst(n, zero), *[nd.mul(x, nd.subst(diff(n, x), zero)) for x in cs if any(y is x for y in nd.walk(n))])


def side(rg, col):
    f = linear(col)
    if len(rg) < 2 or f is None:
        return ''
    extra = {m: v for m, v in nd.terms(f[0]).items() if not any(a.op == 'iv' for a, _ in m)}
    return 'near side' if not extra else 'far side'


RULES = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}

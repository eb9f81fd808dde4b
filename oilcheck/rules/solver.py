"""Linear solvers: C16 C17 C18 C19."""
import itertools
import math
import random
from fractions import Fraction as Fr
from .. import nodes as nd
from ..nodes import num, sym, string, mk, ZERO, ONE, TRUE, FALSE, NONE, N
from ..world import World, scalar, dict_
from ..values import OC
from ..interp import AnalysisError
from ..lib import guarded, Broken, clip
from ..linear import Lin, STRIP

HALF = num(Fr(1, 2))


def T(ip, st, n):
    return ip.tensor(st, n, None)


def bare():
    w = World(pvt=False, freeze=False)
    w.ip.recursion = 8
    w.ip.linsolve_hook = False
    return w


# ---------------------------------------------------------------------------- C16
def C16(c):
    c.rule('convergence', 'on every path that reports convergence, the preconditioned norm of b - A x for the returned x is below the tolerance '
                          '(loop invariants found by Houdini over templates for residual, preconditioned residual and their product)')
    c.rule('limit', 'the iteration loop stops at the iteration limit')
    for pre in (True, False):
        for start in (True, False):
            lab = '%s preconditioner, %s start vector' % ('with' if pre else 'no', 'given' if start else 'no')
            guarded(c, 'convergence', lab, c16, c, pre, start, lab)


class Inv:
    """loop invariants of the solver"""

    def __init__(self, ip, L, A, b, M):
        self.ip, self.L, self.A, self.b, self.M = ip, L, A, b, M
        self.hyp = {}           # mu -> template(x) -> node
        self.memo = {}

    def templates(self, X):
        L = self.L
        r = nd.sub(self.b, L.mv(self.A, X))
        z = nd.div(r, self.M) if self.M is not None else r
        d = L.total(nd.mul(r, z))
        return {'residual': r, 'preconditioned residual': z, 'their product': d, 'norm': nd.power(d, HALF),
                'residual product': L.total(nd.mul(r, r)), 'residual norm': nd.power(L.total(nd.mul(r, r)), HALF)}

    def find(self, x):
        """invariants relative to the solution iterate mu x; t: loop table"""
        t = self.ip.loop_table[x.args[0]]
        cand = {}
        X0, Xn = self.L.nf(t[x][0]), t[x][1]
        T0, T1 = self.templates(X0), self.templates(x)
        for m, (i, back) in t.items():
            if m is x or not isinstance(i, N):
                continue
            i = self.L.nf(i)
            for k in T0:
                if i is T0[k]:
                    cand.setdefault(m, []).append(k)
        cand = {m: list(ks) for m, ks in cand.items()}
        while True:
            sub = {m: T1[ks[0]] for m, ks in cand.items() if ks}
            L2 = Lin(self.ip, self.L.sc)
            f = lambda n: L2.nf(nd.subst(n, sub))
            Tn = self.templates(f(Xn))
            drop = False
            for m, ks in cand.items():
                for k in list(ks):
                    if f(t[m][1]) is not Tn[k]:
                        ks.remove(k)
                        drop = True
            if not drop:
                break
        return {m: ks[0] for m, ks in cand.items() if ks}


def flagof(ip, st, v):
    n = ip.truth(st, v)
    return n


def c16(c, pre, start, lab):
    w = bare()
    ip = w.ip
    st = w.st.fork()
    f = w.method(w.sim, '_solve_pressure_cg_pytorch')
    if f is None:
        raise AnalysisError('the conjugate gradient method was not found')
    tol, maxit = scalar('tol'), scalar('maxit')
    ip.assume[nd.gt0(maxit)] = True
    A, b, M, x0 = sym('A'), sym('b'), sym('M'), sym('x0')
    kw = {'tol': tol, 'max_iter': maxit, 'x0': T(ip, st, x0) if start else NONE, 'M_diag': T(ip, st, M) if pre else NONE}
    old = set(ip.loop_table)
    exits = ip.run_exits(f, [w.sim, T(ip, st, A), T(ip, st, b)], kw, st)
    c.absorb(ip)
    base = w.st.pc
    L = Lin(ip, {tol, maxit})
    inv = Inv(ip, L, A, b, M if pre else None)
    loops = [l for l in ip.loop_table if l not in old]
    where = '%s (%s)' % (f.module.path.split('/repo/')[-1], f.qual)
    for kind, s, v in exits:
        if kind != 'return':
            continue
        vals = ip.seq(v, s)
        if vals is None or len(vals) != 2:
            c.add('convergence', lab, 'undecided', 'the result is not a pair')
            continue
        x, flag = ip.node(s, vals[0]), flagof(ip, s, vals[1])
        if flag is FALSE:
            c.add('convergence', lab + ', exit without convergence', 'proved')
            continue
        lits = [l for l in s.pc if l not in base] + [flag]
        for x1, lits1 in stopped(x, lits):
            if FALSE in lits1:
                c.add('convergence', lab + ', exit without convergence', 'proved')
                continue
            r = judge(ip, L, inv, x1, lits1, tol, maxit, loops)
            c.add('convergence', lab + ', exit with convergence', *(r + (where,) if r[0] != 'proved' else r))
    for l in loops:
        rg = next((y for y in nd.walk(l) if y.op == 'range'), None)
        if rg is None or maxit not in set(nd.walk(rg)):
            continue
        stop = nd.sub(rg.args[1], rg.args[0]) if rg.args[2] is ONE else None
        if stop is None or L.ip is None:
            continue
        c.ok('limit', lab, stop is maxit, 'the loop runs %s times' % nd.show(stop, 4), where)


def stopped(x, lits):
    """cases: the loop was left early (its condition holds for the iterates of that iteration) or ran to its end"""
    has = sorted({y for l in [x] + lits for y in nd.walk(l) if y.op == 'exists'
                  and (l is x or not (l is y or l.op == 'not' and l.args[0] is y))}, key=lambda y: y.id)
    if not has:
        return [(x, lits)]
    e = has[0]
    out = []
    for v, extra in ((TRUE, [e, e.args[1]]), (FALSE, [nd.notn(e)])):
        if nd.notn(e) in lits and v is TRUE or e in lits and v is FALSE:
            continue
        out += stopped(nd.subst(x, {e: v}), [nd.subst(l, {e: v}) if l is not e and not (l.op == 'not' and l.args[0] is e) else l for l in lits] + extra)
    return out


def judge(ip, L, inv, x, lits, tol, maxit, loops):
    """('proved'|'violated'|'undecided', detail): the literals imply that the norm for x is below tol"""
    # a loop value is the iterate after the last iteration: the invariants hold for it, too
    sub = {}
    for l in [x] + lits:
        for y in nd.walk(l):
            if y.op == 'loopval':
                sub[y] = y.args[3]
    x2 = nd.subst(x, sub)
    lits2 = [nd.subst(l, sub) for l in lits]
    why = []
    for m in [y for y in nd.walk(x2) if y.op == 'mu' and linear_in(L, x2, y)] or [None]:
        full = {}
        if m is not None:
            T1 = inv.templates(m)
            full = {k: T1[v] for k, v in inv.find(m).items()}
        L2 = Lin(ip, L.sc)
        f = lambda n: L2.nf(nd.subst(n, full))
        d = L2.nf(inv.templates(f(x2))['their product'])
        out = implied(ip, L2, d, [f(l) for l in lits2], tol)
        if out[0] == 'proved':
            return out
        why = out[1]
    r = refute(ip, Lin(ip, L.sc), inv, x, lits, tol, maxit, loops)
    if r is not None:
        return ('violated', r)
    return ('undecided', 'no proof and no counterexample within two iterations: %s' % '; '.join(clip(nd.show(l, 12), 160) for l in why[:2]))


def linear_in(L, x, m):
    return any(f is m for t in nd.terms(L.nf(x)) for f, e in t)


def implied(ip, L, d, lits, tol):
    """the literals imply sqrt(d) < tol: d is replaced by a fresh number, conditions about other quantities are dropped"""
    D = mk('sym', 'the product of residual and preconditioned residual')
    scal = {D, tol}
    opaque, keep = [], []
    for l in lits:
        if any(y.op == 'exists' for y in nd.walk(l)):
            continue
        l2 = replace(l, d, D)
        ok = True
        for y in top(l2):
            if y is D or y is tol or y.op == 'num':
                continue
            if y.op == 'red' and not any(z.op in ('mu', 'loopval') for z in nd.walk(y)) or y.op == 'sym' and L.scalar(y):
                scal.add(y)
            else:
                ok = False
        (keep if ok else opaque).append(l2)
    rnd = random.Random(7)
    for k in range(4000):
        t = 10 ** rnd.uniform(-9, -0.5)
        env = {tol: t}
        for y in sorted(scal, key=lambda y: y.id):
            if y is not tol:
                env[y] = t * t * 10 ** rnd.uniform(-7, 7) if k % 2 else 10 ** rnd.uniform(-18, 6)
        if math.sqrt(env[D]) < t * (1 + 1e-9):
            continue
        if all(Small(env).ev(l) for l in keep):
            return (None, opaque or keep)
    return ('proved', '')


def refute(ip, L, inv, x, lits, tol, maxit, loops):
    """a counterexample of the extracted formulas after 0, 1, 2 iterations, at random small systems"""
    sub = {}
    for l in [x] + lits:
        for y in nd.walk(l):
            if y.op == 'loopval':
                sub[y] = y.args[3]
    x2 = nd.subst(x, sub)
    exists, plain = [], []
    for l in lits:
        (exists if any(y.op == 'exists' for y in nd.walk(l)) else plain).append(nd.subst(l, sub))
    lid = next((y.args[0] for l in [x2] + plain + exists for y in nd.walk(l) if y.op == 'mu' and y.args[0] in loops), None)
    t = ip.loop_table.get(lid, {}) if lid is not None else {}
    breaks = []
    for l in exists:
        neg = l.op == 'not'
        e = l.args[0] if neg else l
        if e.op != 'exists':
            return None
        breaks.append((neg, e.args[1]))
    after = bool(sub)       # values after the last iteration
    for seed in range(6):
        for k in range(3) if t else range(1):
            vals = {m: i for m, (i, _) in t.items() if isinstance(i, N)}
            pts = [Small({}, seed)]
            hist = []
            for j in range(k):
                hist.append(dict(vals))
                vals = {m: nd.subst(bk, vals) for m, (_, bk) in t.items() if m in vals}
            P = [L.nf(nd.subst(l, vals)) for l in plain]
            R = nd.sub(inv.b, L.mv(inv.A, nd.subst(x2, vals)))
            R = L.nf(R)
            H = [(neg, [L.nf(nd.subst(cnd, h)) for h in hist]) for neg, cnd in breaks]
            for tv in [10 ** (q / 2.0) for q in range(-16, 9)]:
                sm = Small({tol: tv, maxit: float(k)}, seed)
                try:
                    z = sm.ev(R)
                    Mv = sm.ev(inv.M) if inv.M is not None else 1.0
                    d = sm.tot(sm.zip2(lambda p, q: p * p / q, z, Mv))
                    if not d >= 0 or math.sqrt(d) < tv * (1 + 1e-6) or math.sqrt(d) < 1e-7 * sm.scale:
                        continue
                    if any(any(sm.ev(h) for h in hs) for neg, hs in H):
                        continue        # stopped before
                    if all(sm.ev(l) for l in P):
                        return ('reports convergence after %d iterations for a tolerance of %.2g while the preconditioned norm of b - A x is %.3g; '
                                'conditions on this path: %s' % (k + (0 if after or not t else 1), tv, math.sqrt(d), '; '.join(clip(nd.show(l, 5), 140) for l in plain) or 'none'))
                except (AnalysisError, ZeroDivisionError, OverflowError):
                    continue
    return None


class Small:
    """formulas over random systems with a few unknowns"""

    def __init__(self, env, seed=0, sizes=None, spd=('A',)):
        self.env = dict(env)
        self.seed = seed
        self.sizes = sizes
        self.mats = {}
        self.lin = None
        self.size = None
        self.n = 4
        self.scale = (1.0, 1e-2, 1e-4, 0.1, 1e-3, 1e-5)[seed % 6]

    def rnd(self, *key):
        return random.Random('%s %s' % (self.seed, ' '.join(map(str, key))))

    def dims(self, m):
        return (self.n, self.n) if self.sizes is None else self.sizes(m)

    def mat(self, m):
        r = self.mats.get(m)
        if r is None:
            if m.op == 'T':
                r = [list(q) for q in zip(*self.mat(m.args[0]))]
            elif m.op == 'diag':
                v = self.ev(m.args[0])
                r = [[(v[i] if isinstance(v, list) else v) if i == j else 0.0 for j in range(len(v) if isinstance(v, list) else self.n)]
                     for i in range(len(v) if isinstance(v, list) else self.n)]
            elif m.op == 'prod':
                r = self.mat(m.args[0])
                for q in m.args[1:]:
                    B = self.mat(q)
                    r = [[sum(x * B[k][j] for k, x in enumerate(row)) for j in range(len(B[0]))] for row in r]
            elif m.op == 'scale':
                k = self.ev(m.args[0])
                r = [[k * x for x in row] for row in self.mat(m.args[1])]
            elif m.op == 'sym':
                a, b = self.dims(m)
                g = self.rnd('mat', nd.show(m))
                r = [[g.uniform(-1, 1) for _ in range(b)] for _ in range(a)]
                if a == b:
                    r = [[(r[i][j] + r[j][i]) / 2 + (a * 1.5 if i == j else 0) for j in range(b)] for i in range(a)]
                    sc = 0.05 + self.seed
                    r = [[x * (0.3 + 0.5 * (self.seed % 3)) for x in row] for row in r]
            else:
                raise AnalysisError('matrix ' + m.op)
            self.mats[m] = r
        return r

    @staticmethod
    def zip2(f, a, b):
        if isinstance(a, list) or isinstance(b, list):
            n = len(a) if isinstance(a, list) else len(b)
            A = a if isinstance(a, list) else [a] * n
            B = b if isinstance(b, list) else [b] * n
            if len(A) != len(B):
                raise AnalysisError('lengths differ')
            return [f(x, y) for x, y in zip(A, B)]
        return f(a, b)

    def tot(self, v):
        return sum(v) if isinstance(v, list) else v * self.n

    def vec(self, n):
        g = self.rnd('vec', nd.show(n, 12))
        k = self.n
        pos = n.op != 'sym' or str(n.args[0]) == 'M'
        f = 1.0 if pos else self.scale
        return [g.uniform(0.4, 2) if pos else f * g.uniform(-2, 2) for _ in range(k)]

    def sparse(self, n):
        '''the parts of sparse matrices, stored with every entry present, and what is gathered from and scattered to them'''
        o = n.op
        if o == 'spattr':
            M = self.mat(self.lin.matrix(n.args[1]))
            k = len(M[0])
            return {'crow_indices': lambda: [i * k for i in range(len(M) + 1)], 'col_indices': lambda: list(range(k)) * len(M),
                    'values': lambda: [x for r in M for x in r]}[n.args[0]]()
        if o == 'arange' and len(n.args) == 2 and n.args[0] is ZERO and n.args[1].op == 'num':
            return list(range(self.size(n.args[1].args[0])))
        if o == 'call' and str(n.args[0].args[-1]).endswith('repeat_interleave') and len(n.args) >= 3:
            return [x for x, k in self.zip2(lambda a, b: (a, b), self.ev(n.args[1]), self.ev(n.args[2])) for _ in range(int(k))]
        if o == 'call' and str(n.args[0].args[-1]).endswith('.diff') and len(n.args) == 2:
            v = self.ev(n.args[1])
            return [b - a for a, b in zip(v, v[1:])]
        if o in ('idx', 'item'):
            k = n.args[1]
            if isinstance(k, tuple) and k[0] != 'sl':
                if len(k) != 1:
                    return None
                k = k[0]
            v = self.ev(n.args[0])
            if isinstance(k, tuple):
                g = lambda z: None if z is None else int(self.ev(z))
                return v[g(k[1]):g(k[2])] if isinstance(v, list) else v
            return self.take(v, k)
        if o == 'upd' and len(n.args[1]) == 1:
            k = n.args[1][0]
            base, v, k = self.ev(n.args[0]), self.ev(n.args[2]), self.positions(k)
            base = list(base) if isinstance(base, list) else [base] * (max(k) + 1)
            for j, i in enumerate(k):
                base[i] = v[j] if isinstance(v, list) else v
            return base
        if o == 'sc' and len(n.args[0]) == 1:
            k, v = self.positions(n.args[0][0]), self.ev(n.args[1])
            out = [0.0] * (max(k) + 1)
            for j, i in enumerate(k):
                out[i] += v[j] if isinstance(v, list) else v
            return out
        return None

    def positions(self, k):
        if isinstance(k, N) and k.op == 'ix':
            k = k.args[0]
        elif isinstance(k, tuple) and k[0] == 'ix':
            k = k[1]
        if not isinstance(k, N):
            raise AnalysisError('slice assignment')
        v = self.ev(k)
        if not isinstance(v, list):
            return [int(v)]
        return [i for i, q in enumerate(v) if q] if v and isinstance(v[0], bool) else [int(q) for q in v]

    def take(self, v, k):
        if not isinstance(v, list):
            return v
        q = self.ev(k)
        return [v[i] for i in self.positions(k)] if isinstance(q, list) else v[int(q)]

    def ev(self, n):
        if n in self.env:
            return self.env[n]
        r = self._ev(n)
        self.env[n] = r
        return r

    def _ev(self, n):
        o = n.op
        if n is TRUE or n is FALSE:
            return n is TRUE
        if o == 'num':
            return float(n.args[0])
        if o == 'poly':
            tot = 0.0
            for m, k in nd.terms(n).items():
                p = float(k)
                for f, e in m:
                    v = self.ev(f)
                    e = float(e)
                    p = self.zip2(lambda a, b: a * b, p, [q ** e for q in v] if isinstance(v, list) else v ** e)
                tot = self.zip2(lambda a, b: a + b, tot, p)
            return tot
        if o == 'pow':
            return self.zip2(lambda a, b: abs(a) ** b, self.ev(n.args[0]), self.ev(n.args[1]))
        if o in ('gt0', 'eq0', 'not'):
            v = self.ev(n.args[0])
            f = {'gt0': lambda q: q > 0, 'eq0': lambda q: q == 0, 'not': lambda q: not q}[o]
            return [f(q) for q in v] if isinstance(v, list) else f(v)
        if o in ('and', 'or'):
            f = (lambda a, b: a and b) if o == 'and' else (lambda a, b: a or b)
            r = self.ev(n.args[0])
            for y in n.args[1:]:
                if r is (o == 'or'):
                    return r
                r = self.zip2(f, r, self.ev(y))
            return r
        if o in ('max', 'min'):
            f = max if o == 'max' else min
            r = self.ev(n.args[0])
            for y in n.args[1:]:
                r = self.zip2(f, r, self.ev(y))
            return r
        if o == 'abs':
            v = self.ev(n.args[0])
            return [abs(q) for q in v] if isinstance(v, list) else abs(v)
        if o == 'ite':
            q = self.ev(n.args[0])
            if isinstance(q, list):
                r = self.zip2(lambda c, a: (c, a), q, self.ev(n.args[1]))
                return self.zip2(lambda p, b: p[1] if p[0] else b, r, self.ev(n.args[2]))
            return self.ev(n.args[1] if q else n.args[2])
        if self.lin is not None:
            r = self.sparse(n)
            if r is not None:
                return r
        if o == 'red':
            v = self.ev(n.args[1])
            if n.args[0] == 'sum' and len(n.args) == 2:
                return self.tot(v)
            if n.args[0] == 'norm' and len(n.args) == 2:
                return math.sqrt(self.tot([q * q for q in v] if isinstance(v, list) else v * v))
            if n.args[0] == 'median' and len(n.args) == 2 and isinstance(v, list):
                return sorted(v)[(len(v) - 1) // 2]
            if n.args[0] in ('max', 'min') and len(n.args) == 2:
                return (max if n.args[0] == 'max' else min)(v) if isinstance(v, list) else v
            raise AnalysisError('reduction %s' % n.args[0])
        if o == 'mv':
            A, x = self.mat(n.args[0]), self.ev(n.args[1])
            if not isinstance(x, list):
                x = [x] * len(A[0])
            if len(x) != len(A[0]):
                raise AnalysisError('lengths differ')
            return [sum(a * q for a, q in zip(row, x)) for row in A]
        if o == 'solve':
            A, x = [list(q) for q in self.mat(n.args[0])], self.ev(n.args[1])
            return gauss(A, list(x) if isinstance(x, list) else [x] * len(A))
        if o == 'sym' and nd.SHAPES.get(n) != 'scalar':
            return self.vec(n)
        raise AnalysisError('cannot evaluate %s' % nd.show(n, 3))


def gauss(A, b):
    n = len(b)
    if len(A) != n:
        raise AnalysisError('lengths differ')
    for i in range(n):
        p = max(range(i, n), key=lambda q: abs(A[q][i]))
        if abs(A[p][i]) < 1e-12:
            raise ZeroDivisionError
        A[i], A[p], b[i], b[p] = A[p], A[i], b[p], b[i]
        for q in range(i + 1, n):
            f = A[q][i] / A[i][i]
            for k in range(i, n):
                A[q][k] -= f * A[i][k]
            b[q] -= f * b[i]
    for i in reversed(range(n)):
        b[i] = (b[i] - sum(A[i][k] * b[k] for k in range(i + 1, n))) / A[i][i]
    return b


def replace(n, d, D):
    """n with every occurrence of the polynomial d replaced by D (d is a sum of reductions)"""
    if n is d:
        return D
    t = nd.terms(d)
    if n.op == 'poly' and len(t) > 1:
        tn = nd.terms(n)
        m0 = next(iter(t))
        if all(m in tn for m in t):
            k = tn[m0] / t[m0]
            if all(tn[m] == k * t[m] for m in t):
                rest = {m: v for m, v in tn.items() if m not in t}
                return nd.add(replace(nd.from_terms(rest), d, D) if rest else ZERO, nd.mul(num(k), D))
    return nd.rebuild(n, lambda y: replace(y, d, D))


def top(n):
    """the atoms of a condition, not looking into reductions"""
    if n.op in ('gt0', 'eq0', 'not', 'and', 'or', 'poly', 'pow', 'max', 'min', 'abs', 'ite'):
        for y in (n.args if n.op != 'poly' else [f for m in nd.terms(n) for f, e in m]):
            if isinstance(y, N):
                yield from top(y)
    else:
        yield n


# ---------------------------------------------------------------------------- multigrid
SIZES = (1000, 400, 150, 60)


class Amg:
    """the multigrid class, interpreted with the choice of coarse unknowns left open: strong connections, coarsening and interpolation
    weights are symbols, sizes are known so that the number of levels is"""

    def __init__(self, sizes=SIZES, coarsest=200, max_levels=10, decisions=()):
        self.decisions, self.asked = list(decisions), {}
        self.w = w = bare()
        self.ip = ip = w.ip
        self.st = w.st.fork()
        self.sizes, self.coarsest, self.max_levels = sizes, coarsest, max_levels
        self.k = 0
        self.cls = w.find_class('ClassicalAMG')
        if self.cls is None:
            raise Broken('class ClassicalAMG was not found')
        ip.dims = self.dims
        ip.oracle = self.oracle
        self.stub('find_strong_connections', lambda st, a: T(ip, st, sym('ext', 'strong', self.k)))
        self.stub('classical_coarsening', lambda st, a: (T(ip, st, sym('ext', 'cf', self.k)), num(self.sizes[min(self.k + 1, len(sizes) - 1)])))
        self.stub('build_prolongation_rs_full', self.prolong)
        self.stub('generate_nullspace', lambda st, a: T(ip, st, mk('call', sym('ext', 'nullspace'), *[ip.node(st, x) for x in a])))
        self.stub('orthonormalize_columns', lambda st, a: T(ip, st, mk('call', sym('ext', 'orthonormal'), *[ip.node(st, x) for x in a])))
        self.L = Lin(ip)
        self.mismatch = []
        self.stub('_csr_spmm', self.product)
        ip.stubs['ClassicalAMG._analyze_prolongation'] = lambda ip, st, a, kw: sym('ext', 'metrics')
        self.mats = {}

    def oracle(self, c):
        """conditions on statistics of the matrix entries (is the matrix badly scaled?) are enumerated"""
        if c.op not in ('gt0', 'eq0'):
            return None
        v = self.asked.get(c)
        if v is None:
            v = any(y.op == 'red' and y.args[0] in ('median', 'mean', 'max', 'min', 'std', 'amax', 'amin') for y in nd.walk(c)) and not any(
                y.op == 'sym' and y.args[0] in ('x', 'b', 'x0') for y in nd.walk(c))
            if v:
                k = sum(1 for q in self.asked.values() if q is not False)
                v = (self.decisions[k] if k < len(self.decisions) else True,)
            self.asked[c] = v
        return v[0] if v else None

    def taken(self):
        return [q[0] for q in self.asked.values() if q is not False]

    def together(self):
        '''the conditions met can hold together: there are values of the statistics for which they all do'''
        L = Lin(self.ip)
        conds = [(L.nf(k), v[0]) for k, v in self.asked.items() if v is not False]
        vals = sorted({y for k, _ in conds for y in nd.walk(k) if y.op == 'red'}, key=lambda y: y.id)
        if not vals:
            return True
        grid = [10 ** (q / 4.0) for q in range(-120, 41)]
        g = random.Random(5)
        for j in range(400 if len(vals) > 1 else len(grid)):
            env = {y: g.choice(grid) if len(vals) > 1 else grid[j] for y in vals}
            if len(vals) > 1 and j % 2:
                q = g.choice(grid)
                env = {y: q for y in vals}
            try:
                if all(bool(Small(env).ev(k)) == v for k, v in conds):
                    return True
            except (AnalysisError, ZeroDivisionError, OverflowError):
                return True
        return False

    def stub(self, name, f):
        fn = self.w.find_func(name)
        if fn is not None:
            self.ip.stubs[fn.qual] = lambda ip, st, a, kw: f(st, list(a) + list(kw.values()))

    def prolong(self, st, a):
        i = self.k
        self.k += 1
        return (T(self.ip, st, self.P(i)),) + tuple(T(self.ip, st, sym('ext', 'interp', i, j)) for j in range(4))

    def product(self, st, a):
        x, y = [self.L.matrix(self.ip.node(st, q)) for q in a[:2]]
        d, e = self.dims(x), self.dims(y)
        if d and e and d[1] is not e[0] and d[1].op == e[0].op == 'num':
            self.mismatch.append('%s has %s columns, %s has %s rows' % (clip(nd.show(x, 4), 100), nd.show(d[1]), clip(nd.show(y, 4), 100), nd.show(e[0])))
        return T(self.ip, st, self.L.prod(x, y))

    def P(self, i):
        return sym('mat', 'P%d' % i, self.sizes[i], self.sizes[i + 1])

    def matrix(self, name):
        n = self.sizes[0]
        m = sym('mat', name, n, n)
        self.ip.assume[mk('hasattr', m, string('indptr'))] = False
        return m

    def dims(self, n):
        while n.op == 'm' and n.args[0] in STRIP:
            n = n.args[1]
        if n.op == 'sym' and n.args[0] == 'mat':
            return (num(n.args[2]), num(n.args[3]))
        if n.op == 'ite':
            a, b = self.dims(n.args[1]), self.dims(n.args[2])
            return a if a == b else None
        if n.op == 'scale':
            return self.dims(n.args[1])
        if n.op == 'poly' and len(nd.terms(n)) == 1:
            d = [self.dims(f) for m in nd.terms(n) for f, e in m]
            d = [x for x in d if x]
            return d[0] if len(d) == 1 else None
        if n.op == 'spmm':
            a, b = self.dims(n.args[0]), self.dims(n.args[1])
            return (a[0], b[1]) if a and b and len(a) == len(b) == 2 else None
        if n.op == 'prod':
            a, b = self.dims(n.args[0]), self.dims(n.args[-1])
            if n.args[0].op == 'diag':
                a = self.dims(n.args[1])
            if n.args[-1].op == 'diag':
                b = self.dims(n.args[-2])
            return (a[0], b[1]) if a and b else None
        if n.op in ('transpose', 'T') or n.op == 'm' and n.args[0] in ('t', 'transpose'):
            a = self.dims(n.args[0] if n.op != 'm' else n.args[1])
            return a and a[::-1]
        if n.op == 'spcsr':
            for x in n.args[:3]:
                while x.op == 'm':
                    x = x.args[1]
                if x.op == 'spattr':
                    return self.dims(x.args[1])
        if n.op == 'spattr' and n.args[0] == 'crow_indices':
            a = self.dims(n.args[1])
            return a and (nd.add(a[0], ONE),)
        return None

    def build(self, name):
        self.k = 0
        o = self.ip.instantiate(self.cls, [T(self.ip, self.st, self.matrix(name))],
                                {'max_levels': num(self.max_levels), 'coarsest_size': num(self.coarsest)}, self.st, None)
        return o

    def call(self, o, name, *a, **k):
        f = self.cls.lookup(name)
        if f is None:
            raise AnalysisError('method %s was not found' % name)
        v = self.ip.call_func(f, [o] + list(a), k, self.st, None)
        return self.ip.node(self.st, v)

    def t(self, n):
        return T(self.ip, self.st, n)

    # ------------------------------------------------------------ comparison
    def same(self, c, rule, construct, got, want, where, what=''):
        L = Lin(self.ip)
        a, b = (got, want) if got is want else (L.nf(got), L.nf(want))
        if a is b:
            c.add(rule, construct, 'proved')
            return
        try:
            r = self.differ(a, b)
        except (AnalysisError, ZeroDivisionError, OverflowError) as e:
            r = str(e)
        if r is None:
            c.add(rule, construct, 'agreed')
        elif isinstance(r, tuple):
            c.add(rule, construct, 'violated', '%s: the source computes  %s  expected  %s' % (
                what or construct, clip(nd.show(a, 7), 420), clip(nd.show(b, 7), 300)), where)
        else:
            c.add(rule, construct, 'undecided', 'not decided: %s (%s vs %s)' % (r, clip(nd.show(a, 6), 160), clip(nd.show(b, 6), 160)), where)

    def differ(self, a, b):
        for seed in range(5):
            s = Small({}, seed, sizes=self.small)
            s.n = self.small_n(self.sizes[0])
            s.lin = Lin(self.ip)
            s.size = self.small_n
            x, y = s.ev(a), s.ev(b)
            xs = x if isinstance(x, list) else [x]
            ys = y if isinstance(y, list) else [y]
            if len(xs) != len(ys):
                if len(xs) == 1:
                    xs = xs * len(ys)
                elif len(ys) == 1:
                    ys = ys * len(xs)
                else:
                    return (seed,)
            m = max(max(map(abs, xs)), max(map(abs, ys)), 1e-12)
            if any(abs(p - q) > 1e-6 * m for p, q in zip(xs, ys)):
                return (seed,)
        return None

    def small_n(self, n):
        r = {v: 5 - i for i, v in enumerate(self.sizes)}.get(int(n))
        if r is None:
            raise AnalysisError('a size of %s' % n)
        return r

    def small(self, m):
        d = self.dims(m)
        if d is None:
            raise AnalysisError('unknown size')
        return (self.small_n(d[0].args[0]), self.small_n(d[1].args[0]))


def atoms(c):
    if c.op in ('and', 'or', 'not'):
        for y in c.args:
            yield from atoms(y)
    elif c not in (TRUE, FALSE):
        yield c


def vcycle(L, A, P, l, x, b, last):
    """one cycle without smoothing"""
    if l == last:
        return L.solve(A[l], b)
    r = nd.sub(b, L.mv(A[l], x))
    return nd.add(x, L.mv(P[l], vcycle(L, A, P, l + 1, ZERO, L.mv(L.tr(P[l]), r), last)))


CONFIGS = [('three levels', dict(), 2), ('one level', dict(sizes=(150, 60)), 0), ('two levels, limit reached', dict(coarsest=10, max_levels=1), 1),
           ('four levels, limit reached', dict(sizes=(1000, 400, 150, 60, 20), coarsest=10, max_levels=3), 3)]


def forks(make, limit=16):
    """make(decisions) -> Amg, once per combination of the data-dependent conditions it meets"""
    todo, n = [()], 0
    while todo and n < limit:
        d = todo.pop()
        g = make(d)
        n += 1
        t = g.taken()
        todo += [tuple(t[:k]) + (False,) for k in range(len(d), len(t))]
        yield g, ''.join('yn'[not v] for v in t)


def C19(c):
    c.rule('cycle', 'without smoothing a cycle is  x + P0 V1(P0^T (b - A0 x))  recursively, with A(l+1) = Pl^T A(l) Pl and an exact solve on the last level')
    c.rule('solution kept', 'with smoothing, a cycle on any level maps the solution of the level to itself')
    for lab, kw, last in CONFIGS + [('coarsening fails', dict(sizes=(1000, 950, 900)), None)]:
        for upd in (False, True):
            l2 = '%s, %s' % (lab, 'refreshed' if upd else 'built')
            guarded(c, 'cycle', l2, c19, c, l2, kw, last, upd)


def hierarchy(kw, upd):
    def make(d):
        g = Amg(decisions=d, **kw)
        g.o = g.build('A')
        if upd:
            g.call(g.o, 'update_matrix', g.t(g.matrix('B')))
        return g
    return make


def c19(c, lab, kw, last, upd):
    where = 'src/solver/classical_amg.py (ClassicalAMG._v_cycle)'
    x, b = sym('x'), sym('b')
    for g, tag in forks(hierarchy(kw, upd)):
        c.absorb(g.ip)
        o = g.o
        L = Lin(g.ip)
        tag = ', scaling %s' % tag if tag else ''
        if g.mismatch:
            c.add('cycle', lab + tag, 'violated', 'a product of matrices whose sizes do not match: ' + g.mismatch[0], where)
            continue
        A, P = chain(g, L, fine(g, o), last or 0)
        if last is not None:
            got = g.call(o, '_v_cycle', ZERO, g.t(x), g.t(b), ZERO, ZERO)
            g.same(c, 'cycle', lab + tag, got, vcycle(L, A, P, 0, x, b, last), where)
        for l in range((last or 0) + 1):
            v = g.call(o, '_v_cycle', num(l), g.t(x), g.t(b), num(3), num(2))
            g.same(c, 'solution kept', '%s, level %d%s' % (lab, l, tag), nd.subst(v, {b: L.mv(A[l], x)}), x, where)


def chain(g, L, m, last):
    A = [L.matrix(m)]
    P = [g.P(i) for i in range(last)]
    for i in range(last):
        A.append(L.prod(L.prod(L.tr(P[i]), A[i]), P[i]))
    return A, P


def level(g, o, l):
    """matrix of a level: what its residual uses"""
    probe = g.call(o, '_matvec', num(l), g.t(sym('probe')))
    return opnode(g, probe)


def fine(g, o):
    return level(g, o, 0)


def opnode(g, probe):
    """the matrix X with  probe = X v, a symbol or a scaled symbol"""
    L = Lin(g.ip)
    t = nd.terms(L.nf(probe))
    if len(t) == 1:
        (m, c), = t.items()
        k = [f for f, e in m if f.op == 'mv' and e == 1]
        if len(k) == 1 and c == 1:
            left = nd.div(nd.from_terms({m: c}), k[0])
            right = nd.div(k[0].args[1], sym('probe'))
            if sym('probe') not in set(nd.walk(right)):
                X = L.matrix(k[0].args[0])
                if left is not ONE:
                    X = L.prod(mk('diag', left), X)
                if right is not ONE:
                    X = L.prod(X, mk('diag', right))
                return X
    raise AnalysisError('the product with the matrix of a level was not found')


# ---------------------------------------------------------------------------- C17
def C17(c):
    c.rule('refreshed', 'a hierarchy built for one matrix and refreshed with another performs the same cycle as one built for the other, for the same transfer operators')
    c.rule('call', 'every solve of the cached hierarchy uses the matrix, right-hand side, tolerance and cycle limit of its own call, in a hierarchy built with the parameters of the call')
    for lab, kw, last in CONFIGS + [('coarsening fails', dict(sizes=(1000, 950, 900)), None)]:
        guarded(c, 'refreshed', lab, c17_refresh, c, lab, kw)
    guarded(c, 'call', 'sequence of calls', c17_calls, c)


def c17_refresh(c, lab, kw):
    where = 'src/solver/classical_amg.py (ClassicalAMG.update_matrix)'
    x, b = sym('x'), sym('b')

    def make(d):
        g = hierarchy(kw, True)(d)
        g.n1 = len(g.taken())
        g.o2 = g.build('B')
        return g
    for g, tag in forks(make):
        c.absorb(g.ip)
        if g.mismatch:
            c.add('refreshed', '%s, scaling %s' % (lab, tag or 'never'), 'violated', 'a product of matrices whose sizes do not match: ' + g.mismatch[0], where)
            continue
        if not g.together():
            continue
        y1 = g.call(g.o, 'solve', g.t(b), g.t(x), sym('tol'), num(1))
        y2 = g.call(g.o2, 'solve', g.t(b), g.t(x), sym('tol'), num(1))
        g.same(c, 'refreshed', '%s, scaling %s' % (lab, tag or 'never'), y1, y2, where)


class Calls:
    """amg_solve with a hierarchy class which records what it was given"""

    def __init__(self):
        self.w = w = bare()
        self.ip = ip = w.ip
        self.st = w.st.fork()
        self.f = w.find_func('amg_solve')
        self.cls = w.find_class('ClassicalAMG')
        if self.f is None:
            raise Broken('function amg_solve was not found')
        self.seen = []
        self.built = 0
        ip.dims = self.dims
        ip.stubs['ClassicalAMG'] = self.ctor
        ip.stubs['ClassicalAMG.update_matrix'] = self.update
        ip.stubs['ClassicalAMG.solve'] = self.solve
        self.init = self.cls.lookup('__init__')
        self.sig = {n: self.cls.lookup(n) for n in ('__init__', 'update_matrix', 'solve')}

    def dims(self, n):
        while n.op == 'm' and n.args[0] in STRIP:
            n = n.args[1]
        if n.op == 'sym' and n.args[0] == 'mat':
            return (num(n.args[2]), num(n.args[3]))
        if n.op == 'ite':
            a, b = self.dims(n.args[1]), self.dims(n.args[2])
            return a if a == b else None
        if n.op == 'spcsr':
            for x in n.args[:3]:
                while x.op == 'm':
                    x = x.args[1]
                if x.op == 'spattr':
                    return self.dims(x.args[1])
        return None

    def bind(self, name, args, kw):
        a = self.sig[name].node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = dict(zip(pos, args))
        env.update(kw)
        for n, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if n not in env:
                env[n] = self.ip.eval_default(d, self.st, self.sig[name].module)
        return {k: v for k, v in env.items()}, pos

    def ctor(self, ip, st, args, kw):
        self.built += 1
        env, pos = self.bind('__init__', [None] + list(args), kw)
        o = ip.new(st, OC(self.cls, {'matrix': ip.node(st, env[pos[1]]), 'first': ip.node(st, env[pos[1]]), 'id': num(self.built), 'device': sym('device')}))
        cell = st.heap[o.loc]
        for k in pos[2:]:
            cell.attrs['p.' + k] = ip.node(st, env[k])
        return o

    def update(self, ip, st, args, kw):
        env, pos = self.bind('update_matrix', args, kw)
        ip.setattr(args[0], 'matrix', ip.tensor(st, ip.node(st, env[pos[1]]), None), st, None)
        return NONE

    def solve(self, ip, st, args, kw):
        env, pos = self.bind('solve', args, kw)
        g = lambda a: ip.node(st, ip.getattr(args[0], a, st, None))
        r = {k: ip.node(st, v) for k, v in env.items() if k != pos[0]}
        r['matrix'] = g('matrix')
        r['id'] = g('id')
        r['first'] = g('first')
        for n in ('theta', 'max_levels', 'coarsest_size'):
            r['p.' + n] = g('p.' + n)
        y = sym('solution', len(self.seen))
        self.seen.append((r, y, st.pc))
        return ip.tensor(st, y, None)

    def run(self, A, b, **k):
        n = len(self.seen)
        v = self.ip.call_func(self.f, [T(self.ip, self.st, A), T(self.ip, self.st, b)], k, self.st, None)
        return self.seen[n:], self.ip.node(self.st, v)


def c17_calls(c):
    q = Calls()
    where = 'src/solver/pressure_amg.py (amg_solve)'
    base = dict(tol=num(Fr(1, 1000)), max_cycles=num(7), theta=num(Fr(1, 4)), max_levels=num(5), coarsest_size=num(50), device=string('cpu'))
    seq = [('first call', 300, {}), ('same parameters', 300, {}), ('other tolerance and limit', 300, dict(tol=num(Fr(1, 10)), max_cycles=num(3))),
           ('other strength threshold', 300, dict(theta=num(Fr(1, 3)))), ('other level limit', 300, dict(max_levels=num(4))),
           ('other coarsest size', 300, dict(coarsest_size=num(60))), ('other size', 400, {}), ('other device', 300, dict(device=string('cuda'))),
           ('first parameters again', 300, {}), ('close threshold', 300, dict(theta=num(Fr(249, 1000)))), ('size of the first again', 300, dict(max_cycles=num(8)))]
    owner = {}
    for i, (lab, n, var) in enumerate(seq):
        kw = {**base, **var}
        A, b = sym('mat', 'A%d' % i, n, n), sym('b%d' % i)
        rec, out = q.run(A, b, **kw)
        if not rec:
            c.add('call', lab, 'undecided', 'no solve of the hierarchy was found in this call')
            continue
        L = Lin(q.ip)
        for r, y, pc in rec:
            wrong = []
            M = L.matrix(r['matrix'])
            if M is not A:
                wrong.append('the matrix is %s' % clip(nd.show(M, 5), 120))
            if any(x.op in ('mu', 'loopval', 'get') for x in nd.walk(r['matrix'])):
                c.add('call', lab, 'undecided', 'the matrix of the hierarchy is not known: %s' % clip(nd.show(M, 5), 160))
                continue
            for k, v in (('b', b), ('tol', kw['tol']), ('max_iter', kw['max_cycles']), ('p.theta', kw['theta']), ('p.max_levels', kw['max_levels']),
                         ('p.coarsest_size', kw['coarsest_size'])):
                w = r.get(k)
                if w is None:
                    c.add('call', lab, 'undecided', 'parameter %s of the hierarchy was not found' % k)
                    continue
                while w.op == 'm' and w.args[0] in STRIP:
                    w = w.args[1]
                if w is not v:
                    wrong.append('%s is %s instead of %s' % (k.replace('p.', ''), nd.show(w, 4), nd.show(v, 4)))
            key = (n, kw['theta'], kw['max_levels'], kw['coarsest_size'], kw['device'])
            for k2, id2 in owner.items():
                if id2 is r['id'] and k2 != key:
                    wrong.append('the hierarchy belongs to a call with other parameters')
            owner.setdefault(key, r['id'])
            c.ok('call', lab, not wrong, '; '.join(wrong), where)
        y = out
        while y.op == 'm' and y.args[0] in STRIP:
            y = y.args[1]
        if y.op == 'sym' and y.args[0] == 'solution':
            c.ok('call', lab + ', result', y is rec[-1][1], 'the result is that of another solve', where)
        else:
            c.add('call', lab + ', result', 'undecided', 'the result is %s' % clip(nd.show(y, 5), 160))
    c.absorb(q.ip)


# ---------------------------------------------------------------------------- C18
def C18(c):
    c.rule('solution kept', 'solve started from the solution of the original system returns it, whatever the scaling')
    c.rule('unscaled', 'with cycles that solve the scaled system exactly, solve and apply return the solution of the original system')
    c.rule('start', 'solve without a start vector is solve started from zero')
    c.rule('test', 'solve stops early exactly when the residual of the vector it returns, relative to the right-hand side, is below the tolerance')
    for lab, kw, last in CONFIGS:
        for upd in (False, True):
            l2 = '%s, %s' % (lab, 'refreshed' if upd else 'built')
            guarded(c, 'solution kept', l2, c18, c, l2, kw, last, upd)


def c18(c, lab, kw, last, upd):
    where = 'src/solver/classical_amg.py (ClassicalAMG.solve)'
    wapp = 'src/solver/classical_amg.py (ClassicalAMG.apply)'
    x, b = sym('x'), sym('b')
    tol, maxit = scalar('tol'), scalar('maxit')
    for g, tag in forks(hierarchy(kw, upd)):
        c.absorb(g.ip)
        o = g.o
        lab2 = lab + (', scaling %s' % tag if tag else '')
        A = g.matrix('B' if upd else 'A')
        L = Lin(g.ip)
        for k in (1, 2) if last < 2 else (1,):
            v = g.call(o, 'solve', g.t(b), g.t(x), tol, num(k))
            g.same(c, 'solution kept', '%s, limit %d' % (lab2, k), nd.subst(v, {b: L.mv(A, x)}), x, where)
        v1 = g.call(o, 'solve', g.t(b), NONE, tol, num(1))
        v0 = g.call(o, 'solve', g.t(b), g.t(ZERO), tol, num(1))
        g.same(c, 'start', lab2, v1, v0, where)
        As = fine(g, o)
        cyc = lambda p, q: mk('cycle', p, q)
        f = g.cls.lookup('_v_cycle')
        if f is None:
            raise AnalysisError('the cycle was not found')
        names = [q.arg for q in f.node.args.args]
        if len(names) < 4:
            raise AnalysisError('the cycle takes %s' % names)

        def stub(ip, st, a, kw2):
            env = dict(zip(names, a))
            env.update(kw2)
            if env.get(names[1]) is not ZERO:
                raise AnalysisError('a cycle from another level')
            return T(ip, st, cyc(ip.node(st, env[names[2]]), ip.node(st, env[names[3]])))
        g.ip.stubs['ClassicalAMG._v_cycle'] = stub
        try:
            v = g.call(o, 'solve', g.t(b), g.t(x), tol, maxit)
            exits(c, g, L, lab2 + ', solve', v, A, As, b, where)
            test(c, g, lab2, v, A, As, b, tol, where)
            if g.cls.lookup('apply') is not None:
                v = g.call(o, 'apply', g.t(b))
                exits(c, g, L, lab2 + ', apply', v, A, As, b, wapp)
        finally:
            del g.ip.stubs['ClassicalAMG._v_cycle']


def last_value(n):
    """loops run at least once"""
    sub = {y: y.args[2] for y in nd.walk(n) if y.op == 'loopval'}
    return nd.subst(n, sub) if sub else n


def exits(c, g, L, lab, v, A, As, b, where):
    for i, (v1, lits) in enumerate(stopped(v, [])):
        v1 = last_value(v1)
        cy = [y for y in nd.walk(v1) if y.op == 'cycle']
        tops = [y for y in cy if not any(y is not z and y in set(nd.walk(z)) for z in cy)]
        if not cy:
            c.add('unscaled', '%s, exit %d' % (lab, i + 1), 'undecided', 'the result is not that of a cycle: %s' % clip(nd.show(v1, 6), 200))
            continue
        e = nd.subst(v1, {y: L.solve(As, y.args[1]) for y in tops})
        g.same(c, 'unscaled', '%s, exit %d' % (lab, i + 1), e, L.solve(A, b), where)


def test(c, g, lab, v, A, As, b, tol, where):
    L = Lin(g.ip, {tol})
    for v1, lits in stopped(v, []):
        if not lits:
            c.add('test', lab, 'undecided', 'solve never stops before the limit')
            continue
        cond = [l for l in lits if l.op != 'exists' and not (l.op == 'not' and l.args[0].op == 'exists')]
        if not cond:
            continue
        cy = [y for y in nd.walk(v1) if y.op == 'cycle']
        if len(set(cy)) != 1:
            c.add('test', lab, 'undecided', 'the vector returned on an early stop is not the result of one cycle: %s' % clip(nd.show(v1, 5), 200))
            continue
        y, bs = sym('y'), cy[0].args[1]
        sub = {cy[0]: y}
        cond = nd.andn(*[nd.subst(l, sub) for l in cond])
        sub = {q: sym('iterate %d' % i) for i, q in enumerate(sorted({q for q in nd.walk(cond) if q.op == 'mu'}, key=lambda q: q.id))}
        cond = nd.subst(cond, sub)
        z = nd.subst(v1, {cy[0]: y})
        rel = lambda r, q: nd.div(mk('red', 'norm', r), nd.add(mk('red', 'norm', q), num(Fr(1, 10 ** 30))))
        scaled = rel(nd.sub(bs, L.mv(As, y)), bs)
        plain = rel(nd.sub(b, L.mv(A, z)), b)
        if any(L.nf(nd.gt0(nd.sub(tol, r))) is L.nf(cond) for r in (scaled, plain)):
            c.add('test', lab, 'proved')
            continue
        try:
            bad = [disagree(g, cond, r, tol) for r in (scaled, plain)]
        except (AnalysisError, ZeroDivisionError, OverflowError) as e:
            c.add('test', lab, 'undecided', str(e))
            continue
        if None in bad:
            c.add('test', lab, 'agreed')
        else:
            c.add('test', lab, 'violated', 'the condition for stopping  %s  %s' % (clip(nd.show(cond, 8), 400), bad[0]), where)


def disagree(g, cond, rel, tol):
    for seed in range(4):
        def sm(t):
            s = Small({tol: t}, seed, sizes=g.small)
            s.n = g.small_n(g.sizes[0])
            s.lin, s.size = Lin(g.ip), g.small_n
            return s
        q = sm(1.0).ev(rel)
        for f in (1e-4, 0.5, 0.97, 1.03, 2, 1e4):
            got = bool(sm(q * f).ev(cond))
            if got != (f > 1):
                return 'is %s at a relative residual of %.3g for a tolerance of %.3g' % ('met' if got else 'not met', q, q * f)
    return None


RULES = {'C16': C16, 'C19': C19, 'C17': C17, 'C18': C18}

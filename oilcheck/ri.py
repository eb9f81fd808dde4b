"""Equality of value-graph nodes modulo arithmetic the normal form does not decide.

Two nodes are equal when they are the same hash-consed normal form.  When they are not, the
pair is interpreted at random points (random interpretation of the value graph, Gulwani & Necula,
SAS 2004): leaves and uninterpreted operators get random values, congruently (same operator on same
values gives the same value), arithmetic and gates are interpreted exactly in rationals.  A pair is
reported different only when a point separates it by far more than any division guard."""
import hashlib
import math
from fractions import Fraction as Fr
from . import nodes as nd
from .nodes import N

INTERPRETED = {'num', 'str', 'none', 'bool', 'sym', 'poly', 'ite', 'gt0', 'eq0', 'eq', 'not', 'and', 'or', 'max', 'min', 'abs', 'pow',
               'mod', 'fdiv', 'fn', 'idx', 'get', 'item', 'interp', 'red', 'kw', 'truthy', 'tuple', 'list', 'file', 'dict', 'attr',
               'ix', 'isnone', 'loop', 'range', 'json', 'len', 'sc'}


# results of code the interpreter could not follow: never evidence of a difference, whichever side they stand on
UNFOLLOWED = {'mapped', 'mappeddict', 'listloop', 'call', 'elem', 'app', 'extended', 'opaque', 'meth', 'bound', 'value', 'listcell'}


class Skip(Exception):
    pass


class Unfollowed(Exception):
    pass


RANGES = [
    ('cfg.permeability', 0.5, 900, 'log'), ('cfg.k_vertical_fraction', 0.05, 1, 'lin'), ('cfg.porosity', 0.05, 0.4, 'lin'),
    ('pressure', 1.0e7, 1.4e7, 'lin'), ('P_new', 1.0e7, 1.4e7, 'lin'), ('cfg.pressure_MPa', 5, 40, 'lin'),
    ('cfg.s_w', 0.05, 0.7, 'lin'), ('cfg.s_g', 0.01, 0.25, 'lin'),
    ('s_w', 0.3, 0.42, 'lin'), ('s_g', 0.11, 0.22, 'lin'), ('prev_sw', 0.3, 0.42, 'lin'), ('prev_sg', 0.11, 0.22, 'lin'),
    ('dt', 1e3, 3e6, 'log'), ('.dx', 3, 60, 'lin'), ('.dy', 3, 60, 'lin'), ('.dz', 1, 20, 'lin'),
    ('nx', 6, 9, 'int'), ('ny', 6, 9, 'int'), ('nz', 6, 9, 'int'),
    ('.i', 1, 4, 'int'), ('.j', 1, 4, 'int'), ('.k', 1, 4, 'int'), ('.radius', 0.05, 0.18, 'lin'),
    ('.value', 5, 60, 'log'), ('.bhp_min', 5, 15, 'lin'), ('.lim.', 1, 500, 'log'),
    ('cfg.mu_gas', 0.01, 0.05, 'lin'), ('cfg.mu_', 0.3, 5, 'lin'), ('cfg.rho_gas', 0.6, 2, 'lin'), ('cfg.rho_', 700, 1100, 'lin'),
    ('cfg.c_gas', 1e-3, 1e-1, 'log'), ('cfg.c_', 1e-5, 1e-3, 'log'), ('c_rock', 1e-5, 1e-3, 'log'), ('cfg.max_attempts', 2, 6, 'int'),
    ('.sw_cr', 0.05, 0.25, 'lin'), ('.so_r', 0.05, 0.3, 'lin'), ('.sg_cr', 0.02, 0.1, 'lin'),
    ('.nw', 1.2, 4, 'lin'), ('.no', 1.2, 4, 'lin'), ('.ng', 1.2, 4, 'lin'), ('.now', 1.2, 4, 'lin'), ('.nog', 1.2, 4, 'lin'),
    ('pccfg.pc_scale', 1e3, 1e5, 'log'), ('pcgcfg.pc_scale', 1e3, 1e5, 'log'), ('pc_exponent', 0.5, 2, 'lin'),
    ('.max_substeps', 2, 30, 'int'), ('.max_saturation_change', 0.01, 0.1, 'lin'), ('global_rate_scale', 0.3, 2, 'lin'),
    ('.Bo', 1.0, 1.6, 'lin'), ('.Bw', 1.0, 1.08, 'lin'), ('.Bg', 0.003, 0.02, 'log'), ('.mu_o_cP', 0.3, 3, 'lin'),
    ('.mu_w_cP', 0.3, 1, 'lin'), ('.mu_g_cP', 0.01, 0.04, 'lin'), ('.Rs_m3m3', 10, 150, 'lin'), ('.Rv_m3m3', 1e-5, 1e-3, 'log'),
    ('.pressure_MPa', 5, 40, 'lin'), ('well_index', 100, 2000, 'log'), ('.T_x', 1e-13, 1e-11, 'log'),
    ('tolerance', 1e-13, 0.5, 'log'), ('cg_max_iter', 2, 3000, 'int'), ('max_cycles', 1, 60, 'int'), ('coarsest_size', 2, 900, 'int'),
    ('dt_reduction_factor', 1.1, 8, 'lin'), ('attempts', 1, 9, 'int'), ('.theta', 0.01, 0.95, 'lin'),
]
STRS = {'model': ['corey', 'stone2']}


class RI:
    def __init__(self, seed, overrides=None, ip=None):
        self.seed = str(seed)
        self.over = overrides or {}
        self.memo = {}
        self.named = {}
        self.ip = ip
        self.running = set()     # loops being run through

    # ------------------------------------------------------------ sampling
    def u(self, *key):
        h = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=8).digest()
        return int.from_bytes(h, 'big') / 2.0 ** 64

    def sample(self, name, *key):
        r = self.u(name, *key)
        lo, hi, kind = 0.2, 2.0, 'lin'
        for pat, a, b, kd in self.over.get('ranges', []) + RANGES:
            if (name.endswith(pat) if pat.startswith('.') and not pat.endswith('.') else pat in name) and not (
                    pat in ('dt', 'nx', 'ny', 'nz') and name != pat):
                lo, hi, kind = a, b, kd
                break
        if kind == 'int':
            v = Fr(int(lo + r * (hi - lo + 1) * 0.999999))
        elif kind == 'log':
            v = Fr(repr(float('%.6g' % (math.exp(math.log(lo) + r * (math.log(hi) - math.log(lo)))))))
        else:
            x = lo + r * (hi - lo)
            if key and hi > lo:
                # some points look at nearly uniform fields: there small terms decide the gates
                m = self.u('near', name)
                if m > 0.5:
                    c = lo + self.u('centre', name) * (hi - lo)
                    x = c + (x - c) * 10.0 ** -(1 + int((m - 0.5) * 5.99))
            v = Fr(repr(float('%.9g' % x)))
        if len(self.named) < 400:
            self.named[name + (('' if not key else str(key[-1])[:60]))] = v
        return v

    # ------------------------------------------------------------ evaluation
    def ev(self, n):
        if isinstance(n, tuple):
            return tuple(self.ev(x) for x in n)
        if not isinstance(n, N):
            return n
        if n in self.memo:
            return self.memo[n]
        v = self._ev(n)
        self.memo[n] = v
        return v

    def numev(self, n):
        v = self.ev(n)
        if isinstance(v, bool):
            return Fr(1 if v else 0)
        if isinstance(v, Fr):
            return v
        # opaque value used as a number
        return self.sample('opq', repr(v))

    def boolev(self, n):
        v = self.ev(n)
        if isinstance(v, bool):
            return v
        if isinstance(v, Fr):
            return v != 0
        if v is None:
            return False
        if isinstance(v, str) and not v.startswith('\0'):
            return v != ''
        return self.u('truthy', repr(v)) < 0.5

    def leafname(self, n):
        if n.op == 'sym':
            return '.'.join(str(a) for a in n.args)
        if n.op in ('get', 'item') and isinstance(n.args[1], N) and n.args[1].op == 'str':
            b = n.args[0]
            return '%s.%s' % (self.leafname(b) or b.op, n.args[1].args[0])
        if n.op == 'attr':
            return '%s.%s' % (self.leafname(n.args[0]) or '?', n.args[1])
        if n.op == 'idx':
            return self.leafname(n.args[0])
        return None

    def opq(self, *k):
        return '\0' + hashlib.blake2b(repr(k).encode(), digest_size=10).hexdigest()

    def _ev(self, n):
        op = n.op
        a = n.args
        if op == 'num':
            return a[0]
        if op == 'bool':
            return a[0]
        if op == 'str':
            return a[0]
        if op == 'none':
            return None
        if op == 'sym':
            nm = self.leafname(n)
            if nm == 'ext.math.pi':
                return Fr(math.pi)
            if nm in self.over:
                return self.over[nm]
            if nd.SHAPES.get(n) is None and nm in ('sim_params', 'rpcfg', 'pccfg', 'pcgcfg', 'fcfg', 'rcfg', 'device', 'environ'):
                return '\0' + nm
            return self.sample(nm)
        if op == 'poly':
            s = Fr(0)
            for m, c in a:
                p = c
                for at, e in m:
                    v = self.numev(at)
                    if v == 0:
                        if e < 0:
                            raise Skip
                        p = Fr(0)
                        break
                    p *= v ** e
                s += p
            if s.denominator.bit_length() > 6000:
                s = s.limit_denominator(1 << 400) if abs(s) > 1e-60 else s
            return s
        if op == 'ite':
            return self.ev(a[1]) if self.boolev(a[0]) else self.ev(a[2])
        if op == 'gt0':
            return self.numev(a[0]) > 0
        if op == 'eq0':
            return self.numev(a[0]) == 0
        if op == 'eq':
            x, y = self.ev(a[0]), self.ev(a[1])
            return x == y
        if op == 'not':
            return not self.boolev(a[0])
        if op == 'and':
            return all(self.boolev(x) for x in a)
        if op == 'or':
            return any(self.boolev(x) for x in a)
        if op == 'max':
            return max(self.numev(x) for x in a)
        if op == 'min':
            return min(self.numev(x) for x in a)
        if op == 'abs':
            return abs(self.numev(a[0]))
        if op == 'truthy':
            return self.boolev(a[0])
        if op == 'pow':
            return self.pw(self.numev(a[0]), self.numev(a[1]))
        if op == 'mod':
            y = self.numev(a[1])
            if y == 0:
                raise Skip
            return self.numev(a[0]) % y
        if op == 'fdiv':
            y = self.numev(a[1])
            if y == 0:
                raise Skip
            return Fr(self.numev(a[0]) // y)
        if op == 'fn':
            return self.fnv(a)
        if op in ('get', 'item'):
            b = a[0]
            k = a[1]
            nm = self.leafname(n)
            if nm is not None and nm in self.over:
                return self.over[nm]
            if isinstance(k, N) and k.op == 'str':
                if k.args[0] in STRS:
                    s = STRS[k.args[0]]
                    return s[int(self.u('str', nm or self.ev(b)) * len(s) * 0.9999)]
                if op == 'get' and len(a) > 2 and self.over.get('absent') and self.u('absent', nm or repr(self.ev(b)), k.args[0]) < 0.5:
                    return self.ev(a[2])
                bb = self.ev(b)
                if isinstance(bb, str) or nm:
                    return self.sample(nm or 'obj.' + k.args[0], repr(bb))
            return self.opq('item', self.ev(b), self.ev(k))
        if op == 'interp':
            x = self.numev(a[0])
            xp, fp = self.ev(a[1]), self.ev(a[2])
            kw = {k.args[0]: k.args[1] for k in a[3:] if isinstance(k, N) and k.op == 'kw'}
            tail = []
            for side, ix in (('left', 0), ('right', -1)):
                if side in kw:
                    v = kw[side]
                    okk = isinstance(v, N) and v.op in ('idx', 'item', 'get') and self.ev(v.args[0]) == fp
                    if okk:
                        k2 = v.args[1]
                        k2 = k2[0] if isinstance(k2, tuple) and len(k2) == 1 else k2
                        okk = isinstance(k2, N) and k2.op == 'num' and k2.args[0] == ix
                        if not okk and isinstance(k2, tuple) and len(k2) == 2 and ix == -1:
                            okk = True
                    if not okk:
                        tail.append((side, repr(self.ev(v))))
            f = a[2]
            nm = self.leafname(f) or 'tab'
            return self.sample(nm, 'interp', str(float(x)), repr(xp), repr(fp), *tail)
        if op == 'idx':
            return self.idxv(n)
        if op == 'red':
            kind = a[0]
            if kind in ('sum', 'mean'):
                return self.numev(a[1]) * self.sample('red_' + str(kind))
            return self.sample('red_' + str(kind), repr(self.ev(a[1])), *[repr(self.ev(x)) for x in a[2:]])
        if op == 'sc':
            # zero field with a value added at a key; linear in the value
            return self.numev(a[1]) * self.sample('sc', repr(self.ev(a[0])))
        if op == 'loopval' and len(a) == 4:
            r = self.run_loop(n)
            if r is not None:
                return r
        if op == 'loopval' or op == 'linsolve':
            return self.sample(op, *[repr(self.ev(x)) for x in a])
        if op in ('tuple', 'list'):
            return (op,) + tuple(self.ev(x) for x in a)
        return self.opq(op, *[self.ev(x) for x in a])

    def run_loop(self, n):
        """the value a counted loop leaves, by going through its iterations in the value graph"""
        lid, init, back, mu = n.args
        base = lid.args[0]
        if self.ip is None or base.op != 'range' or lid in self.running or self.ip.loop_back.get(lid, nd.TRUE) is not nd.TRUE:
            return None
        tab = self.ip.loop_table.get(lid, {})
        need, todo = {mu: (init, back)}, [back]
        while todo:
            for x in nd.walk(todo.pop()):
                if x.op == 'mu' and x.args[0] is lid and x not in need:
                    if x not in tab:
                        return None
                    need[x] = tab[x]
                    todo.append(tab[x][1])
        lo, hi, st = (self.ev(x) for x in base.args)
        if not all(isinstance(x, Fr) and x.denominator == 1 for x in (lo, hi, st)) or st != 1 or hi - lo > 40:
            return None
        iv = nd.mk('iv', base)
        dep = {}

        def depends(x):
            todo = [(x, False)]
            while todo:
                y, done = todo.pop()
                if isinstance(y, tuple):
                    todo.extend((z, False) for z in y)
                    continue
                if not isinstance(y, N):
                    continue
                if y in dep and not done:
                    continue
                if done:
                    dep[y] = dep[y] or any(has(z) for z in y.args)
                    continue
                dep[y] = y is iv or (y.op == 'mu' and y.args[0] is lid)
                todo.append((y, True))
                todo.extend((z, False) for z in y.args)

        def has(z):
            if isinstance(z, tuple):
                return any(has(t) for t in z)
            return isinstance(z, N) and dep.get(z, False)
        for m, (i, b) in need.items():
            depends(b)
        vary = [x for x, d in dep.items() if d]
        env = {m: self.ev(i) for m, (i, b) in need.items()}
        self.running.add(lid)
        try:
            for k in range(int(lo), int(hi)):
                for x in vary:
                    self.memo.pop(x, None)
                self.memo.update(env)
                self.memo[iv] = Fr(k)
                env = {m: self.ev(b) for m, (i, b) in need.items()}
        finally:
            self.running.discard(lid)
            for x in vary:
                self.memo.pop(x, None)
        return env[mu]

    def pw(self, x, y):
        if y.denominator == 1 and abs(y) < 40:
            if x == 0 and y < 0:
                raise Skip
            return x ** int(y)
        if x < 0:
            raise Skip
        if x == 0:
            if y < 0:
                raise Skip
            return Fr(0)
        return Fr(float(x) ** float(y))

    def fnv(self, a):
        nm = a[0]
        xs = [self.numev(x) if isinstance(x, N) else x for x in a[1:]]
        try:
            if nm == 'log':
                if xs[0] <= 0:
                    raise Skip
                return Fr(math.log(xs[0]))
            if nm == 'exp':
                return Fr(math.exp(xs[0]))
            if nm == 'ceil':
                return Fr(math.ceil(xs[0]))
            if nm == 'floor':
                return Fr(math.floor(xs[0]))
            if nm in ('int', 'trunc'):
                return Fr(int(xs[0]))
            if nm == 'round':
                return Fr(round(xs[0], *[int(x) for x in xs[1:]]))
            if nm == 'sign':
                return Fr((xs[0] > 0) - (xs[0] < 0))
            if nm == 'nan_to_num':
                return xs[0]
        except OverflowError:
            raise Skip
        return self.sample('fn_' + str(nm), *[repr(x) for x in xs])

    def idxv(self, n):
        b, key = n.args
        if b.op == 'mu' and b.args[0] in self.running:
            raise Unfollowed
        k = self.ev(key)
        if b.op == 'interp':
            return self.ev(nd.mk('interp', nd.idx(b.args[0], key), *b.args[1:]))
        if b.op == 'idx':
            b0, k0 = b.args
            kk = self.comp(self.ev(k0), k)
            if b0.op == 'sym':
                return self.leafidx(b0, kk)
            return self.sample('idx', repr(self.ev(b0)), repr(kk))
        if b.op == 'sym':
            return self.leafidx(b, k)
        nm = self.leafname(b)
        if nm:
            return self.sample(nm, 'idx', repr(k), repr(self.ev(b)))
        return self.sample('idx', repr(self.ev(b)), repr(k))

    def leafidx(self, b, k):
        nm = self.leafname(b)
        if k in (('flat',), ('grid',)):
            return self.numev(b)
        return self.sample(nm, 'idx', repr(k))

    def comp(self, k0, k1):
        if k1 in (('flat',), ('grid',)):
            return k0 if k0 not in (('flat',), ('grid',)) else k1
        return k0 + ('/',) + k1


def close(x, y, tol=Fr(1, 10 ** 6)):
    if x == y:
        return True
    if isinstance(x, (Fr, bool)) and isinstance(y, (Fr, bool)):
        x, y = Fr(x), Fr(y)
        return abs(x - y) <= tol * max(abs(x), abs(y))
    return False


def opaque_ops(n, extra=(), world=None):
    bad = set()
    mus, inside = set(), set()
    for x in nd.walk(n):
        if x.op == 'mu' and world is not None:
            mus.add(x)
        elif x.op == 'iv' and world is not None:
            pass
        elif x.op not in INTERPRETED and x.op not in extra:
            bad.add(x.op)
        if x.op == 'loopval' and len(x.args) == 4:
            inside.add(x.args[0])
        if x.op == 'sym' and x.args[0] in UNFOLLOWED:
            bad.add(x.args[0])
    if mus and (any(m.args[0] not in inside for m in mus) or free_mu(n, world)):
        bad.add('mu')
    return bad


def free_mu(n, world):
    """does a loop variable stand outside the loop it belongs to, or does its loop do more than count?"""
    memo = {}

    def go(x):
        """the loops whose variables are free in x"""
        r = memo.get(x)
        if r is None:
            memo[x] = frozenset()
            r = set()
            if x.op == 'mu':
                r.add(x.args[0])
            else:
                for y in x.args:
                    r |= goa(y)
                if x.op == 'loopval' and len(x.args) == 4:
                    lid = x.args[0]
                    if lid.args[0].op == 'range' and world.ip.loop_back.get(lid, nd.TRUE) is nd.TRUE:
                        r.discard(lid)
                        r |= goa(x.args[1])
            r = memo[x] = frozenset(r)
        return r

    def goa(y):
        if isinstance(y, tuple):
            return frozenset().union(*[goa(z) for z in y]) if y else frozenset()
        return go(y) if isinstance(y, N) else frozenset()
    return bool(goa(n))




class Verdict:
    def __init__(self, kind, how, points=0, witness=None, va=None, vb=None):
        self.kind = kind      # 'equal' | 'differs' | 'undecided'
        self.how = how        # 'normal form' | 'random interpretation' | reason
        self.points = points
        self.witness = witness
        self.va = va
        self.vb = vb

    def __bool__(self):
        return self.kind == 'equal'


def one_solution(a, b):
    """one and the same linear solve on both sides: its solution is a free field"""
    seen, todo, items = set(), [a, b], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, nd.N) and x not in seen:
            seen.add(x)
            if x.op == 'item' and x.args[0].op == 'linsolve':
                if x.args[1] is not nd.ZERO:
                    return a, b
                items.add(x)
            elif x.op == 'linsolve':
                items.add(x)
            else:
                todo.extend(x.args)
    if len(items) != 1:
        return a, b
    P = nd.sym('solved.P_new')
    nd.SHAPES[P] = 'grid'
    m = {items.pop(): nd.idx(P, ('flat',))}
    return nd.subst(a, m), nd.subst(b, m)


def equiv(a, b, world=None, points=16, seed=1, ranges=None, over=None, tol=Fr(1, 10 ** 6), cond=None, extra=('loopval', 'linsolve'), absent=False):
    """are two nodes equal?  a: from the repository, b: expected.  cond: optional node that has to be true"""
    if a is b:
        return Verdict('equal', 'normal form')
    if nd.sub(a, b) is nd.ZERO:
        return Verdict('equal', 'normal form')
    a, b = one_solution(a, b)
    try:
        if outer_cases(nd.sub(a, b)):
            return Verdict('equal', 'normal form')
        guards = by_cases(deguard(a), deguard(b))
    except (RecursionError, ZeroDivisionError):
        guards = False
    bad = opaque_ops(a, extra, world) - ({x.op for x in nd.walk(b)} - UNFOLLOWED)
    if bad:
        return Verdict('undecided', 'operators outside the interpreted fragment: ' + ', '.join(sorted(bad)))
    assumed = list(world.ip.assume.items()) if world is not None else []
    ranges = list(ranges or []) + list(getattr(world, 'ri_ranges', []))
    done = 0
    tries = 0
    while done < points and tries < points * 60:
        tries += 1
        o = {k: Fr(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v for k, v in (over or {}).items()}
        if ranges:
            o['ranges'] = list(ranges)
        if absent:
            o['absent'] = True
        ri = RI('%s/%d' % (seed, tries), o, world.ip if world is not None else None)
        try:
            if any(ri.boolev(c) != v for c, v in assumed if arithmetic(c)):
                continue
            if cond is not None and not ri.boolev(cond):
                continue
            ri.named = {}
            x, y = ri.ev(a), ri.ev(b)
        except Skip:
            continue
        except Unfollowed:
            return Verdict('undecided', 'a loop reads shifted values of its own field')
        done += 1
        if not close(x, y, tol):
            return Verdict('differs', 'random interpretation', done, ri.named, x, y)
    if done == 0:
        return Verdict('undecided', 'no admissible point')
    return Verdict('equal', 'normal form' if guards else 'random interpretation', done)


def outer_cases(d, depth=6):
    """zero in every case of the gates at the top of the sum, each condition taken as a whole"""
    if d is nd.ZERO:
        return True
    if depth == 0 or d.op not in ('poly', 'ite'):
        return False
    tops = [d] if d.op == 'ite' else [x for m in nd.terms(d) for x, _ in m if x.op == 'ite']
    for c in {x.args[0]: 1 for x in tops}:
        if all(outer_cases(nd.assume(d, c, v), depth - 1) for v in (True, False)):
            return True
        return False
    return False


def by_cases(a, b, depth=5, budget=None):
    """equal in every case of the gate conditions (finite case split on the value graph)"""
    budget = budget if budget is not None else [64]
    d = nd.sub(a, b)
    if d is nd.ZERO:
        return True
    budget[0] -= 1
    if depth == 0 or budget[0] <= 0:
        return False
    conds = {}
    for x in nd.walk(d):
        if x.op == 'ite':
            c = x.args[0]
            while c.op in ('and', 'or', 'not'):
                c = c.args[0]
            conds[c] = conds.get(c, 0) + 1
    if not conds:
        return False
    inner = lambda c: any(y.op == 'ite' for y in nd.walk(c))
    c = sorted(conds, key=lambda k: (inner(k), -conds[k], k.id))[0]
    for v in (True, False):
        da = nd.assume(d, c, v)
        if da is not nd.ZERO and da is d:
            return False
        if not by_cases(da, nd.ZERO, depth - 1, budget):
            return False
    return True


_dg = {}


def deguard(n):
    """drop division guards: tiny constants in denominators and lower bounds of denominators"""
    r = _dg.get(n)
    if r is not None:
        return r
    if n.op == 'max' and len(n.args) == 2 and any(tiny(x) for x in n.args):
        r = deguard(n.args[0] if tiny(n.args[1]) else n.args[1])
    elif n.op == 'poly' and any(e < 0 for m, _ in n.args for _, e in m):
        out = []
        for m, cf in n.args:
            fs = [nd.num(cf)]
            for at, e in m:
                x = at
                if e < 0 and at.op == 'poly':
                    t = nd.terms(at)
                    if len(t) > 1 and abs(t.get((), 0)) <= TINY:
                        x = nd.from_terms({k: v for k, v in t.items() if k})
                x = deguard(x)
                fs.append(x if e == 1 else nd.power(x, nd.num(e)))
            out.append(nd.mul(*fs))
        r = nd.add(*out)
    else:
        r = nd.rebuild(n, deguard)
    _dg[n] = r
    return r


TINY = Fr(1, 10 ** 8)


def tiny(x):
    return x.op == 'num' and 0 < x.args[0] <= TINY


def arithmetic(c):
    return c.op in ('gt0', 'eq0', 'not') and not any(x.op in ('truthy', 'item') for x in nd.walk(c))


def fmt(v):
    if isinstance(v, Fr):
        return '%.6g' % float(v)
    return str(v)

"""Hash-consed value-graph nodes with a rational-function normal form.

A node denotes the value an expression has on every run (an abstract value in a
global-value-numbering domain).  Two expressions that get the same node are
equal on every run; arithmetic is normalised as sparse multivariate polynomials
over opaque atoms (exponents may be negative), branches are gated `ite` nodes,
comparisons are `gt0`/`eq0` of a normalised difference.
"""
from fractions import Fraction

_table = {}
_count = [0]


class N:
    __slots__ = ('op', 'args', 'id', '_terms', '_push')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args):
    k = (op, args)
    n = _table.get(k)
    if n is None:
        n = N()
        n.op = op
        n.args = args
        n._terms = None
        n._push = None
        _count[0] += 1
        n.id = _count[0]
        _table[k] = n
    return n


NONE = mk('none')
TRUE = mk('bool', True)
FALSE = mk('bool', False)


def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return mk('sym', 'nan' if x != x else ('+inf' if x > 0 else '-inf'))
        x = Fraction(repr(x))
    return mk('num', Fraction(x))


ZERO = num(0)
ONE = num(1)


def string(s):
    return mk('str', s)


def sym(name, *extra):
    return mk('sym', name, *extra)


def is_num(n):
    return n.op == 'num'


def numval(n):
    return n.args[0] if n.op == 'num' else None


# ------------------------------------------------------------------ polynomials
# mono = tuple of (atom, exp) sorted by atom id.   poly dict: mono -> Fraction

def terms(n):
    t = n._terms
    if t is None:
        if n.op == 'num':
            t = {(): n.args[0]} if n.args[0] != 0 else {}
        elif n.op == 'bool':
            t = {(): Fraction(1)} if n.args[0] else {}
        elif n.op == 'poly':
            t = dict(n.args)
        else:
            t = {((n, 1),): Fraction(1)}
        n._terms = t
    return t


def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def from_terms(t):
    t = {m: c for m, c in t.items() if c != 0}
    if not t:
        return ZERO
    if len(t) == 1:
        (m, c), = t.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            return a
    items = tuple(sorted(t.items(), key=lambda mc: _mono_key(mc[0])))
    n = mk('poly', *items)
    return n


def mono_mul(a, b):
    d = {}
    for x, e in a:
        d[x] = d.get(x, 0) + e
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda p: p[0].id))


def mono_pow(a, k):
    return tuple((x, e * k) for x, e in a)


def _denoms(t):
    s = set()
    for m in t:
        for a, e in m:
            if e < 0 and a.op == 'poly':
                s.add((a, e))
    return s


def _cancel(t):
    """cancel P * P^-k groups in a term dict"""
    changed = True
    guard = 0
    while changed and guard < 6:
        changed = False
        guard += 1
        for (P, e) in sorted(_denoms(t), key=lambda p: (p[0].id, p[1])):
            grp = {}
            rest = {}
            for m, c in t.items():
                if (P, e) in m:
                    grp[tuple(x for x in m if x != (P, e))] = c
                else:
                    rest[m] = c
            nP = len(P.args)
            if len(grp) < nP:
                continue
            q, r = divide(grp, terms(P))
            if q and len(q) < len(grp):
                # grp = q*P + r
                new = dict(rest)
                mm = ((P, e),)
                for m, c in r.items():
                    m2 = mono_mul(m, mm)
                    new[m2] = new.get(m2, 0) + c
                mm1 = ((P, e + 1),) if e + 1 != 0 else ()
                for m, c in q.items():
                    m2 = mono_mul(m, mm1)
                    new[m2] = new.get(m2, 0) + c
                t = {m: c for m, c in new.items() if c != 0}
                changed = True
                break
    return t


def divide(t, d):
    """partial exact division of term dict t by term dict d (|d|>=1).

    Returns (q, r) with t = q*d + r; only pulls out quotient monomials for which
    every product term is present in t (so no new terms are introduced)."""
    dm = sorted(d.items(), key=lambda mc: _mono_key(mc[0]))
    lm, lc = dm[0]
    inv = mono_pow(lm, -1)
    r = dict(t)
    q = {}
    for m in sorted(t, key=_mono_key):
        if m not in r:
            continue
        qm = mono_mul(m, inv)
        qc = r[m] / lc
        ok = True
        prods = []
        for dmm, dc in dm:
            pm = mono_mul(qm, dmm)
            if pm not in r:
                ok = False
                break
            if r[pm] != qc * dc:
                ok = False
                break
            prods.append(pm)
        if ok:
            for pm in prods:
                del r[pm]
            q[qm] = q.get(qm, 0) + qc
    return q, r


def add(*ns):
    t = {}
    for n in ns:
        for m, c in terms(n).items():
            t[m] = t.get(m, 0) + c
    t = {m: c for m, c in t.items() if c != 0}
    if len(t) > 1 and any(e < 0 and a.op == 'poly' for m in t for a, e in m):
        t = _cancel(t)
    return from_terms(t)


def neg(n):
    return from_terms({m: -c for m, c in terms(n).items()})


def sub(a, b):
    return add(a, neg(b))


LIMIT = 600


def primitive(n):
    """n = coef * mono * prim, prim a poly node with leading coef 1 and no common monomial"""
    t = terms(n)
    if len(t) == 1:
        (m, c), = t.items()
        return c, m, ONE
    # common (Laurent) monomial: minimum exponent of every atom over all terms
    atoms = {x for m in t for x, _ in m}
    common = {}
    for x in atoms:
        e = min(dict(m).get(x, 0) for m in t)
        if e:
            common[x] = e
    cm = tuple(sorted(common.items(), key=lambda p: p[0].id))
    inv = mono_pow(cm, -1)
    t2 = {mono_mul(m, inv): c for m, c in t.items()}
    lead = min(t2, key=_mono_key)
    # choose the non-constant leading term so that x+1e-12 keeps the literal visible
    nonconst = [m for m in t2 if m]
    if nonconst:
        lead = min(nonconst, key=_mono_key)
    lc = t2[lead]
    t2 = {m: c / lc for m, c in t2.items()}
    return lc, cm, from_terms(t2)


def mul(*ns):
    r = ns[0]
    for n in ns[1:]:
        r = _mul2(r, n)
    return r


def _mul2(a, b):
    ta, tb = terms(a), terms(b)
    if not ta or not tb:
        return ZERO
    if len(ta) == 1 and len(tb) == 1:
        (ma, ca), = ta.items()
        (mb, cb), = tb.items()
        return from_terms({mono_mul(ma, mb): ca * cb})
    # cancellation of a monomial carrying P^-k with a poly proportional to P
    for x, y, tx in ((a, b, ta), (b, a, tb)):
        if len(tx) == 1:
            (mx, cx), = tx.items()
            ds = {p: e for p, e in mx if e < 0 and p.op == 'poly'}
            if ds:
                c, cm, prim = primitive(y)
                if prim in ds:
                    mx2 = tuple((p, e) for p, e in mx if p is not prim)
                    e = ds[prim] + 1
                    mm = mono_mul(mx2, cm)
                    if e:
                        mm = mono_mul(mm, ((prim, e),))
                    return from_terms({mm: cx * c})
    if len(ta) * len(tb) > LIMIT:
        # keep factored: treat the smaller-id operand as atoms
        fa = {((a, 1),): Fraction(1)} if len(ta) > 1 else ta
        fb = {((b, 1),): Fraction(1)} if len(tb) > 1 else tb
        ta, tb = fa, fb
    t = {}
    for ma, ca in ta.items():
        for mb, cb in tb.items():
            m = mono_mul(ma, mb)
            t[m] = t.get(m, 0) + ca * cb
    t = {m: c for m, c in t.items() if c != 0}
    if any(e < 0 and x.op == 'poly' for m in t for x, e in m):
        t = _cancel(t)
    return from_terms(t)


def inv(n):
    if n.op == 'num':
        if n.args[0] == 0:
            return mk('fn', 'inv', n)
        return num(1 / n.args[0])
    t = terms(n)
    if not t:
        return mk('fn', 'inv', n)
    if len(t) == 1:
        (m, c), = t.items()
        return from_terms({mono_pow(m, -1): 1 / c})
    c, cm, prim = primitive(n)
    m = mono_mul(mono_pow(cm, -1), ((prim, -1),))
    return from_terms({m: 1 / c})


def div(a, b):
    if b.op == 'num' and b.args[0] != 0:
        return from_terms({m: c / b.args[0] for m, c in terms(a).items()})
    return mul(a, inv(b))


def power(a, b):
    if b.op == 'num':
        e = b.args[0]
        if e == 0:
            return ONE
        if e.denominator == 1 and abs(e) <= 4:
            k = int(abs(e))
            t = terms(a)
            r = a
            for _ in range(k - 1):
                r = mul(r, a)
            return r if e > 0 else inv(r)
        if a.op == 'num' and e.denominator == 1:
            return num(a.args[0] ** int(e))
        if a.op == 'num' and e.denominator != 1:
            return num(float(a.args[0]) ** float(e)) if a.args[0] > 0 else mk('pow', a, b)
        # pull non-numeric exponent: leave
    if a is ONE:
        return ONE
    if a.op == 'pow':
        return power(a.args[0], mul(a.args[1], b))
    return mk('pow', a, b)


# ------------------------------------------------------------------ booleans
BOOLOPS = {'gt0', 'eq0', 'eq', 'not', 'and', 'or', 'in', 'truthy', 'isinst', 'is', 'exc', 'exists', 'bool', 'hasattr'}


def notn(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'or':
        return andn(*[notn(x) for x in c.args])
    return mk('not', c)


def andn(*cs):
    s = set()
    for c in cs:
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        if c.op == 'and':
            s.update(c.args)
        else:
            s.add(c)
    for c in s:
        if notn(c) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk('and', *sorted(s, key=lambda n: n.id))


def orn(*cs):
    s = set()
    for c in cs:
        if c is FALSE:
            continue
        if c is TRUE:
            return TRUE
        if c.op == 'or':
            s.update(c.args)
        else:
            s.add(c)
    for c in s:
        if notn(c) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    # absorb: x or (x and y) = x
    out = []
    for c in s:
        if c.op == 'and' and any(x in s for x in c.args):
            continue
        if c.op == 'and':
            # x or (not x and y) -> x or y
            keep = [x for x in c.args if notn(x) not in s]
            c = andn(*keep)
        out.append(c)
    out = sorted(set(out), key=lambda n: n.id)
    if len(out) == 1:
        return out[0]
    return mk('or', *out)


def scale_pos(p):
    """positive scaling: |leading coef| -> 1"""
    t = terms(p)
    nonconst = [m for m in t if m]
    lead = min(nonconst, key=_mono_key)
    c = abs(t[lead])
    return from_terms({m: x / c for m, x in t.items()})


def gt0(p):
    if p.op == 'num':
        return TRUE if p.args[0] > 0 else FALSE
    if not terms(p):
        return FALSE
    t = terms(p)
    if len(t) == 1 or True:
        names = [a for m in t for a, e in m]
    # infinities
    s = {m: c for m, c in t.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sym' and m[0][0].args[0] in ('+inf', '-inf')}
    if s:
        (m, c), = list(s.items())[:1]
        pos = (c > 0) == (m[0][0].args[0] == '+inf')
        return TRUE if pos else FALSE
    return mk('gt0', scale_pos(p))


def gt(a, b):
    return gt0(sub(a, b))


def ge(a, b):
    return notn(gt0(sub(b, a)))


def eqn(a, b):
    if a is b:
        return TRUE
    const = {'num', 'str', 'none', 'bool'}
    if a.op in const and b.op in const:
        if a.op == b.op or {a.op, b.op} <= {'num', 'bool'}:
            return TRUE if a.args == b.args else FALSE
        return FALSE
    if a.op == 'bool' or b.op == 'bool':
        x, y = (a, b) if a.op == 'bool' else (b, a)
        if y.op in BOOLOPS:
            return y if x is TRUE else notn(y)
    if a.op in ('str', 'none') or b.op in ('str', 'none'):
        x, y = sorted((a, b), key=lambda n: n.id)
        # ite over constants resolves
        for u, v in ((a, b), (b, a)):
            if u.op == 'ite' and v.op in const:
                return orn(andn(u.args[0], eqn(u.args[1], v)), andn(notn(u.args[0]), eqn(u.args[2], v)))
        return mk('eq', x, y)
    p = sub(a, b)
    if p.op == 'num':
        return TRUE if p.args[0] == 0 else FALSE
    p = scale_pos(p)
    t = terms(p)
    lead = min([m for m in t if m], key=_mono_key)
    if t[lead] < 0:
        p = neg(p)
    return mk('eq0', p)


def is_bool(n):
    return n.op in BOOLOPS


def truthy(n):
    if n.op in BOOLOPS:
        return n
    if n.op == 'num':
        return TRUE if n.args[0] != 0 else FALSE
    if n.op == 'str':
        return TRUE if n.args[0] else FALSE
    if n.op == 'none':
        return FALSE
    if n.op == 'ite':
        return orn(andn(n.args[0], truthy(n.args[1])), andn(notn(n.args[0]), truthy(n.args[2])))
    if n.op in ('poly', 'max', 'min', 'abs', 'pow'):
        return notn(eqn(n, ZERO))
    return mk('truthy', n)


# ------------------------------------------------------------------ ite / min / max

def _arith(n):
    return n.op not in ('str', 'none', 'bool', 'tuple', 'dict', 'list') and n.op not in BOOLOPS


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return notn(c)
    if is_bool(a) and is_bool(b):
        return orn(andn(c, a), andn(notn(c), b))
    # nested same condition
    a = assume(a, c, True, depth=3)
    b = assume(b, c, False, depth=3)
    if a is b:
        return a
    if _arith(a) and _arith(b):
        ta, tb = terms(a), terms(b)
        # if x>y: x else y  -> max
        if c.op == 'gt0':
            d = sub(a, b)
            if d.op != 'num':
                sd = scale_pos(d)
                if sd is c.args[0]:
                    return maxn(a, b)
                if sd is neg(c.args[0]):
                    return minn(a, b)
        # common terms
        com = {m: k for m, k in ta.items() if tb.get(m) == k}
        if com:
            a2 = from_terms({m: k for m, k in ta.items() if m not in com})
            b2 = from_terms({m: k for m, k in tb.items() if m not in com})
            return add(from_terms(com), ite(c, a2, b2))
        # common factor
        if ta and tb:
            ca, ma, pa = primitive(a)
            cb, mb, pb = primitive(b)
            da, db = dict(ma), dict(mb)
            g = {}
            for x in da:
                if x in db and (da[x] > 0) == (db[x] > 0):
                    g[x] = min(da[x], db[x]) if da[x] > 0 else max(da[x], db[x])
            sgn = -1 if (ca < 0 and cb < 0) else 1
            if pa is not ONE and pa is pb:
                # same primitive polynomial
                g2 = tuple(sorted(g.items(), key=lambda p: p[0].id))
                i2 = mono_pow(g2, -1)
                return mul(from_terms({g2: Fraction(sgn)}), pa,
                           ite(c, from_terms({mono_mul(ma, i2): ca * sgn}), from_terms({mono_mul(mb, i2): cb * sgn})))
            if g or sgn < 0:
                g2 = tuple(sorted(g.items(), key=lambda p: p[0].id))
                f = from_terms({g2: Fraction(sgn)})
                fi = from_terms({mono_pow(g2, -1): Fraction(sgn)})
                return mul(f, ite(c, mul(a, fi), mul(b, fi)))
        elif ta or tb:
            # one branch zero: factor everything monomial out
            z = a if ta else b
            cz, mz, pz = primitive(z)
            if cz != 1 or mz:
                f = from_terms({mz: cz})
                return mul(f, ite(c, pz, ZERO) if ta else ite(c, ZERO, pz))
    return mk('ite', c, a, b)


def _mm(op, args):
    s = set()
    for a in args:
        if a.op == op:
            s.update(a.args)
        else:
            s.add(a)
    nums = [a for a in s if a.op == 'num']
    if len(nums) > 1:
        v = (max if op == 'max' else min)(x.args[0] for x in nums)
        s -= set(nums)
        s.add(num(v))
    drop = {'max': '-inf', 'min': '+inf'}[op]
    s = {a for a in s if not (a.op == 'sym' and a.args == (drop,))}
    if len(s) == 1:
        return next(iter(s))
    # min(max(x,lo),hi) stays;  max(min..)) stays
    if len(s) == 2:
        x, y = sorted(s, key=lambda n: n.id)
        z = x if x is ZERO else (y if y is ZERO else None)
        if z is not None:
            o = y if z is x else x
            t = terms(o)
            nonconst = [m for m in t if m]
            if nonconst:
                lc = t[min(nonconst, key=_mono_key)]
                if lc < 0:
                    other = 'min' if op == 'max' else 'max'
                    return neg(_mm(other, [neg(o), ZERO]))
                if lc != 1:
                    return mul(num(lc), _mm(op, [div(o, num(lc)), ZERO]))
    return mk(op, *sorted(s, key=lambda n: n.id))


def maxn(*a):
    return _mm('max', a)


def minn(*a):
    return _mm('min', a)


def absn(a):
    if a.op == 'num':
        return num(abs(a.args[0]))
    t = terms(a)
    if len(t) >= 1:
        nonconst = [m for m in t if m]
        lc = t[min(nonconst, key=_mono_key)]
        if lc < 0:
            return absn(neg(a))
        if len(t) == 1 and lc != 1:
            return mul(num(lc), absn(div(a, num(lc))))
    if a.op == 'abs':
        return a
    return mk('abs', a)


def clamp(x, lo=None, hi=None):
    if lo is not None:
        x = maxn(x, lo)
    if hi is not None:
        x = minn(x, hi)
    return x


# ------------------------------------------------------------------ rewriting
_assume_memo = {}


def assume(n, c, val, depth=99):
    """simplify n knowing boolean node c has truth value val"""
    if c.op == 'not':
        return assume(n, c.args[0], not val, depth)
    if c.op == 'and' and val:
        for x in c.args:
            n = assume(n, x, True, depth)
        return n
    if c.op == 'or' and not val:
        for x in c.args:
            n = assume(n, x, False, depth)
        return n
    key = (n, c, val, depth)
    r = _assume_memo.get(key)
    if r is None:
        r = _assume(n, c, val, depth)
        _assume_memo[key] = r
    return r


def _assume(n, c, val, depth):
    if n is c:
        return TRUE if val else FALSE
    if n.op in ('num', 'str', 'none', 'bool', 'sym'):
        return n
    if depth <= 0:
        return n
    if c.op == 'eq' and val and n.op == 'eq':
        # x == 'a'  implies  x != 'b'
        (x1, y1), (x2, y2) = c.args, n.args
        for u, s in ((x1, y1), (y1, x1)):
            for v, w in ((x2, y2), (y2, x2)):
                if u is v and s.op in ('str', 'none') and w.op in ('str', 'none') and s is not w:
                    return FALSE
    return rebuild(n, lambda x: assume(x, c, val, depth - 1))


def rebuild(n, f):
    op = n.op
    if op in ('num', 'str', 'none', 'bool', 'sym'):
        return n
    if op == 'poly':
        out = []
        changed = False
        for m, c in n.args:
            fs = [num(c)]
            for a, e in m:
                a2 = f(a)
                if a2 is not a:
                    changed = True
                if e == 1:
                    fs.append(a2)
                elif e > 0:
                    x = a2
                    for _ in range(e - 1):
                        x = mul(x, a2)
                    fs.append(x)
                else:
                    x = inv(a2)
                    y = x
                    for _ in range(-e - 1):
                        y = mul(y, x)
                    fs.append(y)
            out.append(fs)
        if not changed:
            return n
        return add(*[mul(*fs) for fs in out])
    args = []
    changed = False
    for a in n.args:
        a2 = _rb(a, f)
        if a2 is not a:
            changed = True
        args.append(a2)
    if not changed:
        return n
    return construct(op, args)


def _rb(a, f):
    if isinstance(a, N):
        return f(a)
    if isinstance(a, tuple):
        t = tuple(_rb(x, f) for x in a)
        if all(x is y for x, y in zip(t, a)):
            return a
        return t
    return a


def construct(op, args):
    if op == 'ite':
        return ite(*args)
    if op == 'gt0':
        return gt0(args[0])
    if op == 'eq0':
        return eqn(args[0], ZERO)
    if op == 'eq':
        return eqn(*args)
    if op == 'not':
        return notn(args[0])
    if op == 'and':
        return andn(*args)
    if op == 'or':
        return orn(*args)
    if op == 'max':
        return maxn(*args)
    if op == 'min':
        return minn(*args)
    if op == 'abs':
        return absn(args[0])
    if op == 'pow':
        return power(*args)
    if op == 'truthy':
        return truthy(args[0])
    if op == 'idx':
        return idx(*args)
    if op == 'sc':
        return sc(*args)
    if op == 'fn':
        return fn(*args)
    if op == 'interp' and args[2].op == 'num':
        return args[2]
    return mk(op, *args)


def fn(name, *args):
    """elementwise uninterpreted function"""
    a = args[0]
    if name == 'sqrt' and a.op == 'num' and a.args[0] >= 0:
        import math
        r = math.isqrt(a.args[0].numerator), math.isqrt(a.args[0].denominator)
        if r[0] ** 2 == a.args[0].numerator and r[1] ** 2 == a.args[0].denominator:
            return num(Fraction(r[0], r[1]))
        return power(a, num(Fraction(1, 2)))
    if name == 'sqrt':
        return power(a, num(Fraction(1, 2)))
    if name == 'log' and a is ONE:
        return ZERO
    if name == 'exp' and a is ZERO:
        return ONE
    return mk('fn', name, *args)


_subst_memo = {}


def subst(n, mp):
    """replace atoms (whole nodes) by others"""
    memo = {}

    def go(x):
        r = mp.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    return go(n)


def walk(n, seen=None):
    """all sub nodes (each once)"""
    if seen is None:
        seen = set()
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, N) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.args)


def distinct(a, b):
    """two keys which can never be equal"""
    if a.op in ('str', 'num', 'none') and b.op in ('str', 'num', 'none'):
        return a is not b
    if a.op == b.op == 'tuple':
        return len(a.args) != len(b.args) or any(distinct(x, y) for x, y in zip(a.args, b.args))
    return {a.op, b.op} <= {'str', 'num', 'none', 'tuple'} and a.op != b.op


def contains(n, pred):
    return any(pred(x) for x in walk(n))


# ------------------------------------------------------------------ indexing
SHAPES = {}     # sym/attr node -> 'scalar' | 'grid' | tuple


def shape_of(n):
    if n in SHAPES:
        return SHAPES[n]
    op = n.op
    if op in ('num', 'bool', 'str', 'none'):
        return 'scalar'
    if op == 'get':
        return 'scalar'
    if op == 'poly':
        r = 'scalar'
        for m, _ in n.args:
            for a, e in m:
                s = shape_of(a)
                if s is None:
                    r = None
                elif s != 'scalar':
                    SHAPES[n] = s
                    return s
        SHAPES[n] = r
        return r
    if op in ('ite', 'max', 'min', 'abs', 'pow', 'gt0', 'not', 'and', 'or', 'eq0', 'fn'):
        r = 'scalar'
        for a in n.args:
            if not isinstance(a, N):
                continue
            s = shape_of(a)
            if s is None:
                r = None
            elif s != 'scalar':
                SHAPES[n] = s
                return s
        SHAPES[n] = r
        return r
    if op == 'idx':
        base, key = n.args
        s = shape_of(base)
        if s == 'grid' and isinstance(key, tuple) and len(key) == 3 and all(isinstance(k, N) for k in key):
            return 'scalar'
        if key == ('flat',):
            return ('flat', s)
        if key == ('flatF',):
            return ('flatF', s)
        if key == ('grid',):
            return 'grid'
        if isinstance(s, tuple) and s[0] == 'flat' and len(key) == 1 and isinstance(key[0], N) and shape_of(key[0]) == 'scalar':
            return 'scalar'
        return None
    if op == 'red':
        return 'scalar'
    if op == 'interp':
        return shape_of(n.args[0])
    return None


ELEMWISE = {'poly', 'ite', 'max', 'min', 'abs', 'pow', 'gt0', 'not', 'and', 'or', 'eq0', 'fn'}
GRID_DIMS = [None]      # (nx, ny, nz) nodes set by the world


def idx(n, key):
    """index with canonical key (tuple of comps)"""
    if not isinstance(key, tuple):
        key = (key,)
    while key and key[-1] == ('sl', None, None):
        key = key[:-1]
    if not key:
        return n
    if n.op in ('truthy', 'exists', 'hasattr', 'isnone', 'in') or n.op == 'eq' and any(isinstance(a, N) and a.op == 'str' for a in n.args):
        return n
    if shape_of(n) == 'scalar' or n.op == 'num':
        return n
    if n._push is None:
        n._push = {}
    r = n._push.get(key)
    if r is None:
        r = _idx(n, key)
        n._push[key] = r
    return r


def _idx(n, key):
    if n.op in ELEMWISE:
        return rebuild(n, lambda a: idx(a, key))
    if n.op == 'interp' and shape_of(n.args[0]) is not None:
        return mk('interp', idx(n.args[0], key), *n.args[1:])
    if n.op == 'idx' and n.args[1] == ('flat',):
        base = n.args[0]
        if key == ('flat',):
            return n
        if len(key) == 1 and isinstance(key[0], N) and shape_of(base) == 'grid' and GRID_DIMS[0]:
            d = decode_flat(key[0])
            if d:
                return idx(base, d)
        if key == ('grid',):
            return base
    if n.op == 'idx' and n.args[1] == ('grid',) and key == ('flat',):
        return n.args[0]
    if n.op == 'idx' and n.args[1] == ('flatF',):
        if key in (('flat',), ('flatF',)):
            return n
        if key == ('gridF',):
            return n.args[0]
    if n.op == 'idx' and n.args[1] == ('flat',) and key == ('flatF',):
        return n
    if n.op == 'transpose' and shape_of(n.args[0]) == 'grid' and key in (('flat',), ('flatF',)):
        return idx(n.args[0], ('flatF',) if key == ('flat',) else ('flat',))
    if key == ('grid',) and shape_of(n) == 'grid':
        return n
    if n.op == 'idx' and n.args[1] and n.args[1][0] == 'unsq' and key == ('sq',) + n.args[1][1:]:
        return n.args[0]
    if n.op == 'cat' and key == ('flat',):
        return n
    if n.op == 'sc' and n.args[0] == key:
        return n.args[1]
    if n.op == 'upd' and n.args[1] == key:
        return n.args[2]
    return mk('idx', n, key)


def decode_flat(e):
    """(i*ny + j)*nz + k -> (i, j, k)"""
    nx, ny, nz = GRID_DIMS[0]
    pi, pj, pk = {}, {}, {}
    for m, c in terms(e).items():
        d = dict(m)
        has_y = d.get(ny, 0) == 1
        has_z = d.get(nz, 0) == 1
        if d.get(nx, 0):
            return None
        if has_y and has_z:
            pi[tuple(x for x in m if x[0] not in (ny, nz))] = c
        elif has_z:
            pj[tuple(x for x in m if x[0] is not nz)] = c
        elif has_y:
            return None
        else:
            pk[m] = c
    if not pi or not pj or not pk:
        return None
    return (from_terms(pi), from_terms(pj), from_terms(pk))


def sc(key, v):
    """zero tensor with v added at key; linear in v"""
    t = terms(v)
    out = {}
    for m, c in t.items():
        base = from_terms({m: Fraction(1)})
        out[((mk('sc', key, base), 1),)] = c
    return from_terms(out)


# ------------------------------------------------------------------ printing

def show(n, depth=6):
    if isinstance(n, tuple):
        if n and n[0] == 'sl':
            f = lambda x: '' if x is None else show(x, depth - 1)
            return f(n[1]) + ':' + f(n[2])
        return '(' + ','.join(show(x, depth) for x in n) + ')'
    if not isinstance(n, N):
        return str(n)
    if depth <= 0:
        return '…'
    op = n.op
    d = depth - 1
    if op == 'num':
        v = n.args[0]
        if v.denominator == 1 and abs(v) < 10 ** 7:
            return str(v)
        return '%g' % float(v)
    if op == 'str':
        return repr(n.args[0])
    if op == 'none':
        return 'None'
    if op == 'bool':
        return str(n.args[0])
    if op == 'sym':
        return '.'.join(str(x) if not isinstance(x, (N, tuple)) else show(x, d) for x in n.args)
    if op == 'poly':
        parts = []
        for m, c in n.args[:12]:
            fs = []
            if c != 1 or not m:
                fs.append('%g' % float(c))
            for a, e in m:
                s = show(a, d)
                if a.op == 'poly':
                    s = '(' + s + ')'
                fs.append(s if e == 1 else '%s^%s' % (s, e))
            parts.append('*'.join(fs))
        if len(n.args) > 12:
            parts.append('…')
        return ' + '.join(parts)
    if op == 'idx':
        k = n.args[1]
        b = show(n.args[0], d)
        return '%s[%s]' % (b, ','.join(show(x, d) for x in k))
    if op == 'gt0':
        return '(%s > 0)' % show(n.args[0], d)
    if op == 'eq':
        return '(%s == %s)' % (show(n.args[0], d), show(n.args[1], d))
    if op == 'attr':
        return '%s.%s' % (show(n.args[0], d), n.args[1])
    return '%s(%s)' % (op, ', '.join(show(a, d) for a in n.args))

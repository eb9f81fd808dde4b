"""Normal form for expressions with matrices: products of a sparse matrix with a vector, however they are written, become `mv`,
which is linear in the vector; products of matrices become flat chains; `solve` inverts `mv`."""
from fractions import Fraction as Fr
from . import nodes as nd
from .nodes import N, mk, num, sym, ZERO, ONE, NONE, TRUE, FALSE

STRIP = ('to_dense', 'to_sparse', 'to_sparse_csr', 'to_sparse_coo', 'coalesce', 'clone', 'contiguous', 'detach', 'cpu', 'to', 'double')


class Lin:
    def __init__(self, ip, scalars=(), subst=None):
        self.ip = ip
        self.memo = {}
        self.sc = set(scalars)
        self.unknown = set()

    # ------------------------------------------------------------------ scalars
    def scalar(self, x):
        if x in self.sc or x.op in ('num', 'red', 'iv', 'str'):
            return True
        if x.op == 'mu':
            for t in self.ip.loop_table.values():
                if x in t:
                    return self.scalar(t[x][0])
            return False
        if x.op == 'sym':
            return nd.SHAPES.get(x) == 'scalar' or nd.shape_of(x) == 'scalar'
        if x.op == 'loopval':
            return self.scalar(x.args[1])
        if x.op in ('poly', 'pow', 'max', 'min', 'abs', 'fn'):
            return all(self.scalar(y) for y in self.leaves(x))
        if x.op == 'ite':
            return self.scalar(x.args[1]) and self.scalar(x.args[2])
        return False

    def leaves(self, x):
        if x.op == 'poly':
            return [f for m in nd.terms(x) for f, _ in m]
        return [a for a in x.args if isinstance(a, N) and a.op != 'num']

    def nonneg(self, f):
        return f.op in ('abs', 'num') or f.op == 'red' and f.args[0] == 'norm' or f.op == 'pow' and f.args[1].op == 'num' and f.args[1].args[0] == Fr(1, 2)

    def total(self, v):
        """sum of the entries of a vector, linear in it"""
        out = ZERO
        for m, c in nd.terms(v).items():
            s, w = num(c), []
            for f, e in m:
                if self.scalar(f):
                    s = nd.mul(s, nd.power(f, num(e)))
                else:
                    w.append((f, e))
            out = nd.add(out, nd.mul(s, mk('red', 'sum', nd.from_terms({tuple(w): Fr(1)}) if w else ONE)))
        return out

    # ------------------------------------------------------------------ matrices
    def matrix(self, n):
        """canonical matrix: ('prod', ...) chains flat, transposes pushed inwards"""
        if n.op == 'm' and n.args[0] in STRIP:
            return self.matrix(n.args[1])
        if n.op == 'ite' and self.matrix(n.args[1]) is self.matrix(n.args[2]):
            return self.matrix(n.args[1])
        if n.op == 'poly' and len(nd.terms(n)) == 1:
            (m, c), = nd.terms(n).items()
            k = [f for f, e in m if not self.scalar(f)]
            if len(k) == 1 and (k[0], 1) in m:
                return self.scale(nd.div(n, k[0]), self.matrix(k[0]))
        if n.op == 'transpose' or n.op == 'm' and n.args[0] in ('t', 'transpose'):
            return self.tr(self.matrix(n.args[0] if n.op == 'transpose' else n.args[1]))
        if n.op in ('spmm', 'matmul') or n.op == 'call' and n.args[0].op == 'sym' and str(n.args[0].args[-1]).split('.')[-1] in ('_csr_spmm', 'mm', 'matmul'):
            a, b = (n.args[0], n.args[1]) if n.op != 'call' else (n.args[1], n.args[2])
            return self.prod(self.matrix(a), self.matrix(b))
        if n.op == 'spcsr':
            # rebuilt from its own parts
            P = []
            for x in n.args[:2]:
                while x.op == 'm' and x.args[0] in STRIP:
                    x = x.args[1]
                P.append(x)
            if [x.op for x in P] == ['spattr'] * 2 and [x.args[0] for x in P] == ['crow_indices', 'col_indices'] and P[0].args[1] is P[1].args[1]:
                t = self.scaled(n.args[2], self.base(P[0].args[1]))
                if t is not None and len(t) == 1 and t[0][0] is ONE:
                    t = t[0]
                    out = self.matrix(t[1])
                    if t[2] is not ONE:
                        out = self.prod(self.diag(t[2]), out)
                    if t[3] is not ONE:
                        out = self.prod(out, self.diag(t[3]))
                    return out
        return n

    def square(self, m):
        if m.op == 'diag':
            return True
        d = self.ip.dims(m) if self.ip.dims else None
        return d is not None and d[0] is d[1]

    def diag(self, v):
        return mk('diag', self.nf(v))

    def scale(self, s, m):
        if m.op == 'scale':
            s, m = nd.mul(s, m.args[0]), m.args[1]
        return m if s is ONE else mk('scale', s, m)

    def tr(self, m):
        if m.op == 'scale':
            return self.scale(m.args[0], self.tr(m.args[1]))
        if m.op == 'diag':
            return m
        if m.op == 'T':
            return m.args[0]
        if m.op == 'prod':
            return mk('prod', *[self.tr(x) for x in reversed(m.args)])
        return mk('T', m)

    def prod(self, a, b):
        for p, q in ((a, b), (b, a)):
            if p.op == 'scale':
                return self.scale(p.args[0], self.prod(p.args[1], q) if p is a else self.prod(q, p.args[1]))
        return mk('prod', *((a.args if a.op == 'prod' else (a,)) + (b.args if b.op == 'prod' else (b,))))

    def rows_of(self, i):
        """A if i lists the row of each entry of A"""
        if i.op == 'call' and str(i.args[0].args[-1]).endswith('repeat_interleave') and len(i.args) > 2:
            ar, ln = i.args[1], i.args[2]
            if ar.op != 'arange' or ar.args[0] is not ZERO:
                return None
            for x in nd.walk(ln):
                if x.op == 'spattr' and x.args[0] == 'crow_indices':
                    d = nd.sub(nd.idx(x, (('sl', ONE, None),)), nd.idx(x, (('sl', None, num(-1)),)))
                    if ln is d or ln.op == 'call' and str(ln.args[0].args[-1]).endswith('.diff') and ln.args[1] is x:
                        return x.args[1]
        return None

    def cols_of(self, i):
        if i.op == 'spattr' and i.args[0] == 'col_indices':
            return i.args[1]
        return None

    # ------------------------------------------------------------------ vectors
    def mv(self, A, x):
        """A times x, distributed"""
        x = self.nf(x)
        if A.op == 'scale':
            return nd.mul(A.args[0], self.mv(A.args[1], x))
        if A.op == 'diag':
            return nd.mul(A.args[0], x)
        if A.op == 'ite':
            return nd.ite(A.args[0], self.mv(A.args[1], x), self.mv(A.args[2], x))
        if A.op == 'prod':
            out, rest = ZERO, ZERO
            for m, c in nd.terms(x).items():
                k = [f for f, e in m if f.op == 'solve' and e == 1 and f.args[0] is A]
                if k and all(f is k[0] or self.scalar(f) for f, e in m):
                    out = nd.add(out, nd.mul(nd.div(nd.from_terms({m: c}), k[0]), k[0].args[1]))
                else:
                    rest = nd.add(rest, nd.from_terms({m: c}))
            for m in reversed(A.args):
                rest = self.mv(m, rest)
            return nd.add(out, rest)
        out = ZERO
        for m, c in nd.terms(x).items():
            s, v = num(c), []
            for f, e in m:
                if self.scalar(f):
                    s = nd.mul(s, nd.power(f, num(e)))
                else:
                    v.append((f, e))
            if not v:
                v = ONE
            else:
                v = nd.from_terms({tuple(v): Fr(1)})
            if v.op == 'solve' and v.args[0] is A:
                r = v.args[1]
            elif v.op == 'ite':
                r = nd.ite(v.args[0], self.mv(A, v.args[1]), self.mv(A, v.args[2]))
            else:
                r = mk('mv', A, v)
            out = nd.add(out, nd.mul(s, r))
        return out

    def solve(self, A, b):
        b = self.nf(b)
        if A.op == 'scale':
            return nd.div(self.solve(A.args[1], b), A.args[0])
        if A.op == 'diag':
            return nd.div(b, A.args[0])
        if A.op == 'prod' and all(self.square(m) for m in A.args):
            for m in A.args:
                b = self.solve(m, b)
            return b
        out = ZERO
        for m, c in nd.terms(b).items():
            s, v = num(c), []
            for f, e in m:
                (v.append((f, e)) if not self.scalar(f) else None)
                if self.scalar(f):
                    s = nd.mul(s, nd.power(f, num(e)))
            v = nd.from_terms({tuple(v): Fr(1)}) if v else ONE
            r = self.peel(A, v)
            if r is None:
                r = mk('solve', A, v)
            out = nd.add(out, nd.mul(s, r))
        return out

    def base(self, X):
        """the matrix whose pattern X has"""
        while True:
            if X.op == 'm' and X.args[0] in STRIP:
                X = X.args[1]
            elif X.op == 'spcsr' and X.args[0].op == 'spattr' and X.args[0].args[0] == 'crow_indices':
                X = X.args[0].args[1]
            elif X.op == 'ite' and self.base(X.args[1]) is self.base(X.args[2]):
                X = self.base(X.args[1])
            else:
                return X

    def peel(self, A, v):
        """y with v = A y, if v is visibly that"""
        for m in A.args if A.op == 'prod' else (A,):
            if m.op == 'diag':
                v = nd.div(v, m.args[0])
            elif v.op == 'mv' and v.args[0] is m:
                v = v.args[1]
            else:
                return None
        return v

    def lift(self, f, A):
        """(kind, vector) when f is an elementwise expression of vectors all taken at the rows, or all at the columns, of A's entries"""
        kinds = set()
        memo = {}

        def go(x):
            if x in memo:
                return memo[x]
            if x.op == 'idx' and len(x.args[1]) == 1 or x.op == 'item':
                k = x.args[1][0] if x.op == 'idx' else x.args[1]
                if isinstance(k, N):
                    R, C = self.rows_of(k), self.cols_of(k)
                    if R is not None and self.base(R) is A:
                        kinds.add('row')
                        r = memo[x] = x.args[0]
                        return r
                    if C is not None and self.base(C) is A:
                        kinds.add('col')
                        r = memo[x] = x.args[0]
                        return r
                kinds.add('?')
                return x
            if x.op in ('poly', 'pow', 'max', 'min', 'abs', 'ite', 'num'):
                r = memo[x] = nd.rebuild(x, go)
                return r
            if x.op == 'fn' or not self.scalar(x):
                kinds.add('?')
            return x
        r = go(f)
        return (kinds.pop(), r) if len(kinds) == 1 and '?' not in kinds else None

    def scaled(self, v, A):
        """[(scalar, matrix, left, right)]: the entries v of a matrix with the pattern of A as a sum of scalar*left[row]*matrix*right[col]"""
        out = []
        for m, c in nd.terms(v).items():
            s, M, l, r = num(c), None, ONE, ONE
            for f, e in m:
                while f.op == 'm' and f.args[0] in STRIP:
                    f = f.args[1]
                if f.op == 'spattr' and f.args[0] == 'values' and e == 1 and M is None and self.base(f.args[1]) is A:
                    M = f.args[1]
                    continue
                if self.scalar(f):
                    s = nd.mul(s, nd.power(f, num(e)))
                    continue
                k = self.lift(f, A)
                if k is None:
                    return None
                if k[0] == 'row':
                    l = nd.mul(l, nd.power(k[1], num(e)))
                else:
                    r = nd.mul(r, nd.power(k[1], num(e)))
            if M is None:
                return None
            out.append((s, M, l, r))
        return out

    def scatter(self, n):
        """sparse product written with scatter_add"""
        key, v = n.args
        if len(key) != 1 or not isinstance(key[0], tuple) and not isinstance(key[0], N):
            return None
        k = key[0]
        k = k.args[0] if isinstance(k, N) and k.op == 'ix' else k[1] if isinstance(k, tuple) and k[0] == 'ix' else k
        if not isinstance(k, N):
            return None
        R, C = self.rows_of(k), self.cols_of(k)
        A = R if R is not None else C
        if A is None:
            return None
        t = self.scaled(v, self.base(A))
        if t is None:
            return None
        out = ZERO
        for s, M, l, r in t:
            M = self.matrix(M)
            if R is not None:
                y = nd.mul(s, nd.mul(self.nf(l), self.mv(M, r)))
            else:
                y = nd.mul(s, nd.mul(self.nf(r), self.mv(self.tr(M), l)))
            out = nd.add(out, y)
        return out

    def nf(self, n):
        if not isinstance(n, N):
            return n
        r = self.memo.get(n)
        if r is None:
            r = self._nf(n)
            self.memo[n] = r
            if isinstance(r, N):
                self.memo.setdefault(r, r)
        return r

    def _nf(self, n):
        o = n.op
        if o in ('mv', 'solve'):
            return (self.mv if o == 'mv' else self.solve)(n.args[0], n.args[1])
        if o == 'sc':
            r = self.scatter(n)
            return n if r is None else r
        if o in ('spmm', 'matmul'):
            return self.mv(self.matrix(n.args[0]), n.args[1])
        if o == 'call' and n.args[0].op == 'sym' and n.args[0].args[0] == 'ext':
            name = str(n.args[0].args[1])
            if name.endswith('linalg.solve'):
                return self.solve(self.matrix(n.args[1]), n.args[2])
            if name.split('.')[-1] in ('mv', 'mm', 'matmul') and name.startswith('torch'):
                return self.mv(self.matrix(n.args[1]), n.args[2])
            return n
        if o == 'm' and n.args[0] in ('mv', 'matmul', 'mm') and len(n.args) == 3:
            return self.mv(self.matrix(n.args[1]), n.args[2])
        if o == 'm' and n.args[0] in ('unsqueeze', 'squeeze', 'flatten', 'contiguous'):
            return self.nf(n.args[1])
        if o == 'red':
            A = [self.nf(x) if isinstance(x, N) else x for x in n.args[1:]]
            if n.args[0] == 'norm' and len(A) == 1:
                if len(nd.terms(A[0])) > 8:
                    return mk('red', 'norm', A[0])
                return nd.power(self.total(nd.mul(A[0], A[0])), num(Fr(1, 2))) if A[0] is not ZERO else ZERO
            if n.args[0] == 'dot' and len(A) == 2 and len(nd.terms(A[0])) * len(nd.terms(A[1])) <= 100:
                return self.total(nd.mul(A[0], A[1]))
            if n.args[0] == 'sum' and len(A) == 1:
                return self.total(A[0])
            return mk('red', n.args[0], *A)
        if o == 'gt0':
            p = self.nf(n.args[0])
            if all(c < 0 and all(self.nonneg(f) for f, _ in m) for m, c in nd.terms(p).items()):
                return FALSE
            return nd.gt0(p)
        if o in nd.ELEMWISE or o in ('poly', 'ite', 'gt0', 'eq0', 'and', 'or', 'not', 'max', 'min', 'abs', 'pow'):
            return nd.rebuild(n, self.nf)
        return n

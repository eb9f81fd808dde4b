"""Meaning of extracted expressions over file names and directory listings.

The interpreter leaves a program that collects, filters and sorts file names as one expression over the listings of the directories it
reads (`sorted(listloop(...), key, reverse)`, `strm(search, re, elem(...))`).  Here such an expression gets a value in a model file system:
a mapping from directory to the names in it, in an order of the model's choosing.  Anything without a definition below raises
AnalysisError, so that the caller reports it as undecided."""
import fnmatch
import os.path
import re
from fractions import Fraction as Fr
from .interp import AnalysisError
from . import nodes as nd
from .nodes import N, TRUE, NONE, sym, mk

SORT = sym('elem', '$sort')
NONE_V = ('none',)


class Model:
    def __init__(self, dirs, env):
        self.dirs = dirs            # path -> names in listing order
        self.env = dict(env)        # node -> value
        self.image = {}             # image -> file

    # sequences are lists of (value, bindings)
    def seq(self, n, env):
        o = n.op
        if n in env:
            v = env[n]
            if isinstance(v, list):
                return v
        if o in ('list', 'tuple'):
            return [(self.val(x, env), env) for x in n.args]
        if o == 'range':
            a, b, s = (int(self.val(x, env)) for x in n.args)
            return [(i, env) for i in range(a, b, s)]
        if o == 'ite':
            return self.seq(n.args[1] if self.truth(n.args[0], env) else n.args[2], env)
        if o == 'mapped' or o == 'listloop':
            out = []
            base = n.args[0] if o == 'mapped' else n.args[0].args[0]
            if o == 'listloop':
                out += self.seq(n.args[1], env)
            for v, e in self.seq(base, env):
                e2 = dict(env)
                e2.update(e)
                e2[mk('elem', base)] = v
                e2[mk('iv', base)] = v
                if o == 'mapped':
                    if self.truth(n.args[2], e2):
                        out.append((self.val(n.args[1], e2), e2))
                    continue
                body = n.args[2].args if n.args[2].op == 'several' else [mk('tuple', n.args[2], n.args[3] if len(n.args) > 3 else TRUE, NONE)]
                for t in body:
                    if t.args[2] is not NONE:
                        raise AnalysisError('append in an inner loop')
                    if self.truth(t.args[1], e2):
                        out.append((self.val(t.args[0], e2), e2))
            return out
        if o == 'sorted':
            items = self.seq(n.args[0], env)
            key = n.args[1]
            if key is NONE or key.op == 'none':
                ks = [v for v, _ in items]
            else:
                if key.op == 'fn' or contains_sort(key):
                    ks = [self.val(key, {**e, SORT: v}) for v, e in items]
                else:
                    raise AnalysisError('sort key ' + nd.show(key, 3))
            rev = self.truth(n.args[2], env)
            try:
                order = sorted(range(len(items)), key=lambda i: plain(ks[i]), reverse=rev)
            except TypeError:
                raise AnalysisError('sort key of mixed types')
            return [items[i] for i in order]
        if o == 'app':
            return self.seq(n.args[0], env) + [(self.val(n.args[1], env), env)]
        if o == 'extended':
            return self.seq(n.args[0], env) + self.seq(n.args[1], env)
        if o in ('reversed',) or o == 'fn' and n.args[0] in ('list', 'tuple', 'reversed'):
            s = self.seq(n.args[-1], env)
            return s[::-1] if 'reversed' in (o, n.args[0]) else s
        if o == 'idx':
            k = n.args[1]
            if isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], tuple) and k[0][0] == 'sl' and len(k[0]) == 3:
                a, b = (None if x is None else int(self.val(x, env)) for x in k[0][1:3])
                return self.seq(n.args[0], env)[a:b]
            raise AnalysisError('slice of a sequence')
        if o == 'item' and n.args[1].op == 'slice':
            k = [None if x is None or x is NONE else int(self.val(x, env)) for x in n.args[1].args]
            return self.seq(n.args[0], env)[slice(*k)]
        if o == 'lm' and n.args[0] == 'insert':
            s = list(self.seq(n.args[1], env))
            s.insert(int(self.val(n.args[2], env)), (self.val(n.args[3], env), env))
            return s
        if o == 'lm' and n.args[0] == 'reverse':
            return self.seq(n.args[1], env)[::-1]
        if o == 'popped':
            return self.seq(n.args[0], env)[:-1]
        if o == 'call' and n.args[0].op == 'sym' and n.args[0].args[0] == 'ext':
            return [(x, env) for x in self.listing(n, env)]
        v = self.val(n, env)
        if isinstance(v, (list, tuple)):
            return [(x, env) for x in v]
        raise AnalysisError('sequence ' + nd.show(n, 3))

    def listing(self, n, env):
        name = n.args[0].args[1]
        A = [self.val(x, env) for x in n.args[1:] if x.op != 'kw']
        if name == 'os.listdir':
            if A[0] not in self.dirs:
                raise AnalysisError('listing of %r' % (A[0],))
            return list(self.dirs[A[0]])
        if name in ('glob.glob', 'glob.iglob'):
            d, pat = os.path.split(A[0])
            if re.search('[*?[]', d.replace('[[]', '').replace('[*]', '').replace('[?]', '')):
                # a pattern in the directory part: only what matches literally or by pattern
                ds = [x for x in self.dirs if fnmatch.fnmatchcase(x, d)]
            else:
                d = d.replace('[[]', '[').replace('[*]', '*').replace('[?]', '?')
                ds = [x for x in self.dirs if x == d]
            return [os.path.join(x, f) for x in ds for f in self.dirs[x] if fnmatch.fnmatchcase(f, pat)]
        raise AnalysisError('call of ' + name)

    def truth(self, n, env):
        o = n.op
        if n is TRUE:
            return True
        if n is nd.FALSE:
            return False
        if o == 'and':
            return all(self.truth(x, env) for x in n.args)
        if o == 'or':
            return any(self.truth(x, env) for x in n.args)
        if o == 'not':
            return not self.truth(n.args[0], env)
        if o == 'truthy':
            x = n.args[0]
            try:
                v = self.val(x, env)
            except AnalysisError:
                v = self.seq(x, env)
            return bool(v) and v != NONE_V
        v = self.val(n, env)
        return bool(v) and v != NONE_V

    def val(self, n, env):
        if n in env:
            return env[n]
        if n in self.env:
            return self.env[n]
        o = n.op
        if n is TRUE or n is nd.FALSE:
            return n is TRUE
        if n is NONE:
            return NONE_V
        if nd.is_num(n):
            return nd.numval(n)
        if o == 'str':
            return n.args[0]
        if o == 'tuple':
            return tuple(self.val(x, env) for x in n.args)
        if o == 'poly':
            t = Fr(0)
            for m, c in nd.terms(n).items():
                p = Fr(c)
                for x, k in m:
                    v = self.val(x, env)
                    if not isinstance(v, (int, Fr)):
                        raise AnalysisError('arithmetic on ' + nd.show(x, 3))
                    p *= Fr(v) ** k
                t += p
            return t
        if o == 'fstr':
            return ''.join(text(self.val(x, env)) for x in n.args)
        if o == 'fmt':
            if len(n.args) > 1 and n.args[1] not in ('', None, nd.string(''), NONE):
                v = self.val(n.args[0], env)
                f = n.args[1].args[0] if isinstance(n.args[1], N) and n.args[1].op == 'str' else n.args[1]
                try:
                    return format(int(v) if isinstance(v, Fr) and v == int(v) else v, f)
                except (ValueError, TypeError):
                    raise AnalysisError('format %r' % (f,))
            return text(self.val(n.args[0], env))
        if o == 'path':
            A = [self.val(x, env) for x in n.args[1:]]
            if n.args[0] == 'abspath':
                return A[0]
            return getattr(os.path, n.args[0])(*A)
        if o == 're':
            return re.compile(self.val(n.args[0], env))
        if o == 'strm':
            return self.strm(n, env)
        if o == 'ite':
            return self.val(n.args[1] if self.truth(n.args[0], env) else n.args[2], env)
        if o == 'fn' and n.args[0] in ('int', 'float', 'str', 'len', 'abs'):
            if n.args[0] == 'len':
                try:
                    v = self.val(n.args[1], env)
                except AnalysisError:
                    v = self.seq(n.args[1], env)
                return Fr(len(v))
            v = self.val(n.args[1], env)
            if n.args[0] == 'str':
                return text(v)
            try:
                return abs(v) if n.args[0] == 'abs' else Fr(int(v)) if n.args[0] == 'int' else Fr(v)
            except (ValueError, TypeError):
                raise AnalysisError('%s(%r)' % (n.args[0], v))
        if o == 'item' and n.args[1].op == 'slice':
            k = [None if x is None or x is NONE else int(self.val(x, env)) for x in n.args[1].args]
            try:
                v = self.val(n.args[0], env)
                if isinstance(v, (str, tuple, list)):
                    return v[slice(*k)]
            except AnalysisError:
                pass
            return [x for x, _ in self.seq(n, env)]
        if o == 'item':
            k = self.val(n.args[1], env)
            b = n.args[0]
            try:
                v = self.val(b, env)
            except AnalysisError:
                v = [x for x, _ in self.seq(b, env)]
            if isinstance(v, re.Match):
                return v.group(k if isinstance(k, str) else int(k))
            if isinstance(v, (list, tuple, str)) and isinstance(k, (int, Fr)) and -len(v) <= k < len(v):
                return v[int(k)]
            raise AnalysisError('item ' + nd.show(n, 3))
        if o == 'slice' or o == 'idx':
            v = self.val(n.args[0], env)
            k = n.args[1]
            if isinstance(v, (str, tuple, list)) and isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], tuple) and k[0][0] == 'sl':
                a, b = (None if x is None else int(self.val(x, env)) for x in k[0][1:3])
                return v[a:b]
            raise AnalysisError('slice ' + nd.show(n, 3))
        if o in ('gt0', 'ge0'):
            v = self.val(n.args[0], env)
            return v > 0 if o == 'gt0' else v >= 0
        if o in ('eq', 'eq0'):
            a = self.val(n.args[0], env)
            return a == (self.val(n.args[1], env) if len(n.args) > 1 else 0)
        if o == 'mod':
            return self.val(n.args[0], env) % self.val(n.args[1], env)
        if o in ('floor', 'max', 'min'):
            A = [self.val(x, env) for x in n.args]
            import math
            return Fr(math.floor(A[0])) if o == 'floor' else max(A) if o == 'max' else min(A)
        if o in ('in', 'contains'):
            raise AnalysisError('membership')
        if o == 'truthy' or o in ('and', 'or', 'not'):
            return self.truth(n, env)
        if o == 'call' and n.args[0].op == 'sym' and n.args[0].args[0] == 'ext':
            name = n.args[0].args[1]
            if name in ('os.listdir', 'glob.glob', 'glob.iglob'):
                return self.listing(n, env)
            A = [self.val(x, env) for x in n.args[1:] if x.op != 'kw']
            if name in ('re.search', 're.match', 're.findall', 're.fullmatch'):
                r = getattr(re, name[3:])(*A)
                return NONE_V if r is None else r
            if name == 'glob.escape':
                import glob
                return glob.escape(A[0])
            if name == 'os.path.splitext':
                return os.path.splitext(A[0])
            if name in ('os.path.exists', 'os.path.isfile'):
                d, f = os.path.split(A[0])
                return f in self.dirs.get(d, ())
            if name.split('.')[-1] == 'imread' and A:
                return ('image', A[0])
            raise AnalysisError('call of ' + name)
        if n is SORT:
            raise AnalysisError('sort element outside a sort')
        if o == 'sym' and len(n.args) == 2 and n.args[:2] == ('ext', 'os.sep'):
            return os.sep
        if o in ('listloop', 'mapped', 'sorted', 'app', 'extended', 'list', 'lm', 'popped', 'range'):
            return [x for x, _ in self.seq(n, env)]
        raise AnalysisError('value of ' + nd.show(n, 3))

    def strm(self, n, env):
        m = n.args[0]
        s = None if m == 'strftime' else self.val(n.args[1], env)
        A = [self.val(x, env) for x in n.args[2:]]
        A = [int(a) if isinstance(a, Fr) else a for a in A]
        if isinstance(s, re.Pattern) and m in ('search', 'match', 'findall', 'fullmatch'):
            if not isinstance(A[0], str):
                raise AnalysisError('pattern on %r' % (A[0],))
            r = getattr(s, m)(A[0])
            return NONE_V if r is None else r
        if m == 'strftime':
            return '20260102_030405'
        if isinstance(s, re.Match) and m == 'group':
            return s.group(*A)
        if isinstance(s, str) and m in ('endswith', 'startswith', 'split', 'rsplit', 'replace', 'lower', 'upper', 'strip', 'join', 'isdigit', 'format'):
            return getattr(s, m)(*A)
        raise AnalysisError('%s of %r' % (m, s))


def contains_sort(k):
    return any(x is SORT for x in nd.walk(k))


def plain(v):
    return tuple(plain(x) for x in v) if isinstance(v, (list, tuple)) else v


def text(v):
    if isinstance(v, Fr):
        return str(int(v)) if v == int(v) else str(float(v))
    return str(v)

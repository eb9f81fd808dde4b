"""Models of the library functions the repository calls (torch, numpy, math, builtins)."""
import ast
from . import nodes as nd
from .nodes import mk, num, string, sym, NONE, TRUE, FALSE, ZERO, ONE, N
from fractions import Fraction as Fr
from .values import *

IDENT_METHODS = {'clone', 'detach', 'contiguous', 'float', 'double', 'to', 'cpu', 'cuda', 'numpy', 'item', 'astype',
                 'copy', 'type', 'coalesce', 'requires_grad_', 'half', 'long', 'int', 'to_sparse_csr', 'to_sparse_coo',
                 'tocsr', 'tocsc', 'tocoo', 'expand_as', 'pin_memory', 'numpy_'}
VIEW_METHODS = {'detach', 'contiguous', 'numpy', 'requires_grad_'}
MAYALIAS = {'to', 'float', 'double', 'cpu', 'cuda', 'coalesce', 'type', 'to_sparse_csr', 'to_sparse_coo', 'half'}
ELEM1 = {'exp', 'log', 'sqrt', 'tanh', 'sin', 'cos', 'ceil', 'floor', 'sign', 'isfinite', 'isnan', 'isinf', 'log10',
         'reciprocal', 'round', 'sigmoid', 'expm1', 'log1p', 'square', 'rsqrt'}
REDUCE = {'sum', 'mean', 'max', 'min', 'norm', 'prod', 'any', 'all', 'median', 'std', 'argmax', 'argmin', 'amax', 'amin',
          'dot', 'numel', 'nonzero', 'cumsum', 'var', 'count_nonzero'}


LAYOUT = ('to_dense', 'to_sparse', 'to_sparse_csr', 'to_sparse_coo', 'coalesce', 'clone', 'contiguous', 'detach', 'cpu', 'to', 'double')


def spattr(m, n):
    """a part of a sparse matrix, seen through changes of layout"""
    while n.op == 'm' and n.args[0] in LAYOUT:
        n = n.args[1]
    if n.op == 'spcoo' and m in ('values', 'indices'):
        return n.args[m == 'values']
    if n.op == 'spcsr':
        i = {'crow_indices': 0, 'col_indices': 1, 'values': 2}.get(m)
        if i is not None:
            return n.args[i]
    if n.op == 'ite':
        return nd.ite(n.args[0], spattr(m, n.args[1]), spattr(m, n.args[2]))
    return mk('spattr', m, n)


def T(ip, st, n, shape=None):
    return ip.tensor(st, n, shape)


def is_float(ip, st, v):
    return ip.node(st, v)


def list_extend(ip, st, l, v):
    c = st.heap[l.loc]
    s = ip.seq(v, st)
    if s is None:
        st.heap[l.loc] = LC((), None, mk('extended', ip.node(st, l), ip.node(st, v)))
        return
    if c.base is not None or c.elem is not None:
        for x in s:
            list_append(ip, st, l, x)
        return
    st.heap[l.loc] = LC(list(c.items) + [(TRUE, x) for x in s])


def list_append(ip, st, l, v):
    c = st.heap[l.loc]
    ip._appended.setdefault(l.loc, []).append((v, st.pc, tuple(ip.loops)))
    if c.base is not None or c.elem is not None:
        st.heap[l.loc] = LC((), c.elem, mk('app', ip.node(st, l), ip.node(st, v)))
    else:
        st.heap[l.loc] = LC(list(c.items) + [(TRUE, v)])


# ---------------------------------------------------------------- attributes of non-repo values

def attr(ip, st, o, a, e):
    if isinstance(o, Ref):
        c = st.heap.get(o.loc)
        if isinstance(c, (TC, VC)):
            if a in ('shape',):
                n = ip.node(st, o)
                sh = c.shape if isinstance(c, TC) else None
                if sh == 'grid' or nd.shape_of(n) == 'grid':
                    if nd.GRID_DIMS[0]:
                        return tuple(nd.GRID_DIMS[0])
                d = ip.dims(n) if ip.dims else None
                return d if d is not None else mk('shape', n)
            if a in ('device', 'dtype', 'is_cuda', 'layout', 'requires_grad', 'ndim', 'size_', 'is_sparse'):
                return mk('tattr', a)
            if a == 'T':
                t = T(ip, st, transpose(ip.node(st, o)))
                ip.alias(t, o)
                return t
            if a in ('data', 'indptr'):
                t = T(ip, st, mk('attr', ip.node(st, o), a))
                ip.alias(t, o)
                return t
            return MethV(o, a)
        return MethV(o, a)
    if isinstance(o, N):
        if a == 'shape' and nd.shape_of(o) == 'grid' and nd.GRID_DIMS[0]:
            return tuple(nd.GRID_DIMS[0])
        if a == 'shape' and o.op == 'poly':
            return mk('shape', o)
        if o.op in ('attr', 'sym', 'call', 'elem', 'item', 'get', 'm', 'mu', 'loopval', 'ite', 'exception'):
            return mk('attr', o, a)
    return MethV(o, a)


def transpose(n):
    if n.op == 'transpose':
        return n.args[0]
    return mk('transpose', n)


# ---------------------------------------------------------------- methods

def method(ip, st, o, m, args, kw, e):
    if isinstance(o, UnionV):
        c = ip.decide(o.cond, st)
        if c is TRUE:
            return ip.call(ip.getattr(o.a, m, st, e), args, kw, st, e)
        if c is FALSE:
            return ip.call(ip.getattr(o.b, m, st, e), args, kw, st, e)
    cell = st.heap.get(o.loc) if isinstance(o, Ref) else None
    if isinstance(cell, LC):
        return list_method(ip, st, o, cell, m, args, kw, e)
    if isinstance(cell, DC):
        return dict_method(ip, st, o, cell, m, args, kw, e)
    if isinstance(o, tuple):
        if m == 'index' or m == 'count':
            return mk('m', m, ip.node(st, o), *[ip.node(st, a) for a in args])
        return ip.opaque_call(mk('attr', ip.node(st, o), m), args, kw, st, e)
    n = ip.node(st, o)
    if isinstance(o, (SuperV,)):
        ip.event('supercall', m, [ip.node(st, a) for a in args], {k: ip.node(st, v) for k, v in kw.items()}, st, e)
        return NONE
    # dict-like config node
    if m == 'get' and (isinstance(o, N) or cell is None) and n.op in ('sym', 'get', 'item', 'attr', 'elem', 'call', 'mu', 'ite', 'loopval', 'dict') and args:
        k = ip.node(st, args[0])
        d = args[1] if len(args) > 1 else kw.get('default', NONE)
        if n.op == 'ite':
            return nd.ite(n.args[0], cfg_get(ip, st, n.args[1], k, ip.node(st, d)), cfg_get(ip, st, n.args[2], k, ip.node(st, d)))
        return cfg_get(ip, st, n, k, ip.node(st, d))
    if m == 'lower' or m == 'upper' or m == 'strip':
        if n.op == 'str':
            return string(getattr(n.args[0], m)())
        if n.op == 'ite':
            return nd.ite(n.args[0], method(ip, st, n.args[1], m, args, kw, e), method(ip, st, n.args[2], m, args, kw, e))
        return mk('strm', m, n)
    if m == 'endswith' or m == 'startswith':
        return nd.notn(nd.notn(mk('truthy', mk('strm', m, n, *[ip.node(st, a) for a in args]))))
    if m in ('format', 'join', 'split', 'replace', 'group', 'strftime', 'search', 'match', 'findall', 'encode', 'decode', 'rsplit'):
        r = mk('strm', m, n, *[ip.node(st, a) for a in args])
        return r
    if m in ('write', 'close', 'flush', 'add_argument', 'set_title', 'set_xlabel', 'set_ylabel', 'update', 'set_postfix', 'set_description') and cell is None:
        ip.event('call', m, [n] + [ip.node(st, a) for a in args], {k: ip.node(st, v) for k, v in kw.items()}, st, e)
        return NONE
    istensor = isinstance(cell, (TC, VC))
    A = [ip.node(st, a) for a in args]
    K = {k: ip.node(st, v) for k, v in kw.items()}
    r = tensor_method(ip, st, o, n, m, args, A, kw, K, e, istensor)
    if r is not None:
        return r
    nn = mk('m', m, n, *(A + [mk('kw', k, v) for k, v in sorted(K.items())]))
    ip.event('call', '.' + m, [n] + A, K, st, e, nn)
    if m.endswith('_') and not m.endswith('__') and isinstance(o, Ref):
        ip.event('mutate', m, (ip.roots(st, o),), {}, st, e)
        ip.set_tensor(st, o, nn)
        return o
    return T(ip, st, nn) if istensor else nn


def cfg_get(ip, st, n, k, d):
    r = mk('get', n, k, d)
    return r


def list_method(ip, st, o, c, m, args, kw, e):
    if m == 'append':
        list_append(ip, st, o, args[0])
        ip.event('append', ip.loc, (o, ip.node(st, args[0])), {}, st, e, ip.node(st, args[0]))
        return NONE
    if m == 'extend':
        list_extend(ip, st, o, args[0])
        return NONE
    if m == 'sort':
        key = kw.get('key')
        kn = NONE
        if isinstance(key, FuncV):
            try:
                kn = ip.node(st, ip.call(key, [sym('elem', '$sort')], {}, st, e))
            except Exception:
                kn = sym('opaque', 'sortkey')
        elif key is not None:
            kn = ip.node(st, key)
        n = ip.node(st, o)
        rev = ip.node(st, kw['reverse']) if 'reverse' in kw else FALSE
        r = mk('sorted', n, kn, rev)
        st.heap[o.loc] = LC((), c.elem, r)
        return NONE
    if m == 'pop':
        if c.base is None and c.elem is None and c.items and all(g is TRUE for g, _ in c.items) and not args:
            st.heap[o.loc] = LC(c.items[:-1])
            return c.items[-1][1]
        n = ip.node(st, o)
        st.heap[o.loc] = LC((), c.elem, mk('popped', n))
        return mk('item', n, num(-1))
    if m in ('insert', 'remove', 'clear', 'reverse'):
        n = ip.node(st, o)
        if m == 'clear':
            st.heap[o.loc] = LC(())
        else:
            st.heap[o.loc] = LC((), c.elem, mk('lm', m, n, *[ip.node(st, a) for a in args]))
        return NONE
    if m == 'copy':
        return ip.new(st, LC(c.items, c.elem, c.base))
    return ip.opaque_call(mk('attr', ip.node(st, o), m), args, kw, st, e)


def dict_method(ip, st, o, c, m, args, kw, e):
    if m == 'get':
        k = ip.node(st, args[0])
        d = args[1] if len(args) > 1 else NONE
        if k in c.entries:
            return c.entries[k]
        if c.base is not None:
            return cfg_get(ip, st, c.base, k, ip.node(st, d))
        if all(nd.distinct(x, k) for x in c.entries):
            return d
        return mk('get', ip.node(st, o), k, ip.node(st, d))
    if m == 'keys' and c.base is None:
        return tuple(c.entries)
    if m == 'values' and c.base is None:
        return tuple(c.entries.values())
    if m == 'items' and c.base is None:
        return tuple((k, v) for k, v in c.entries.items())
    if m in ('items', 'keys', 'values'):
        return mk('m', m, ip.node(st, o))
    if m == 'copy':
        return ip.new(st, DC(dict(c.entries), c.base))
    if m == 'update' and args:
        s = st.heap.get(args[0].loc) if isinstance(args[0], Ref) else None
        e2 = dict(c.entries)
        if isinstance(s, DC):
            e2.update(s.entries)
        for k, v in kw.items():
            e2[string(k)] = v
        st.heap[o.loc] = DC(e2, c.base)
        return NONE
    if m == 'setdefault':
        k = ip.node(st, args[0])
        if k in c.entries:
            return c.entries[k]
        e2 = dict(c.entries)
        v = args[1] if len(args) > 1 else NONE
        e2[k] = v
        st.heap[o.loc] = DC(e2, c.base)
        return v
    if m == 'pop':
        k = ip.node(st, args[0])
        e2 = dict(c.entries)
        v = e2.pop(k, args[1] if len(args) > 1 else NONE)
        st.heap[o.loc] = DC(e2, c.base)
        return v
    if m == 'clear':
        st.heap[o.loc] = DC({}, None)
        return NONE
    return ip.opaque_call(mk('attr', ip.node(st, o), m), args, kw, st, e)


def kwarg(A, K, i, name, default=None):
    if i < len(A):
        return A[i]
    return K.get(name, default)


def reshape_key(ip, st, args):
    """None | ('flat',) | ('grid',) | other"""
    a = list(args)
    if len(a) == 1:
        s = ip.seq(a[0], st)
        if s is not None:
            a = s
    ns = [ip.node(st, x) for x in a]
    if len(ns) == 1 and ns[0].op == 'num' and ns[0].args[0] == -1:
        return ('flat',)
    if len(ns) == 1 and ns[0] in ip.shape_hint and tuple(ip.shape_hint[ns[0]]) == nd.GRID_DIMS[0]:
        return ('grid',)
    if nd.GRID_DIMS[0] and tuple(ns) == tuple(nd.GRID_DIMS[0]):
        return ('grid',)
    if len(ns) == 1 and nd.GRID_DIMS[0] and ns[0] is nd.mul(*nd.GRID_DIMS[0]):
        return ('flat',)
    return ('rs',) + tuple(ns)


def tensor_method(ip, st, o, n, m, args, A, kw, K, e, istensor):
    """value of tensor.m(*args); None if unknown"""
    ref = o if isinstance(o, Ref) else None

    def ret(x, shape=None):
        return T(ip, st, x, shape or (ip.shape(st, ref) if ref else None)) if istensor else x

    if m in IDENT_METHODS:
        if m == 'item':
            return n
        if m in VIEW_METHODS and ref is not None:
            return ip.new(st, VC(ref, ()))
        if ref is None and not istensor:
            return n
        if m in ('int', 'long'):
            r = n if n.op in ('num',) else n
            t = ret(r)
            return t
        t = ret(n)
        if m in MAYALIAS and ref is not None:
            ip.alias(t, ref)
        return t
    if m in ('view', 'reshape', 'flatten', 'ravel'):
        order = kw.get('order')
        args = list(args)
        if m in ('flatten', 'ravel') and args and isinstance(args[0], N) and args[0].op == 'str':
            order = args.pop(0)
        if kw.get('shape') is not None and not args:
            args = [kw['shape']]
        k = ('flat',) if m in ('flatten', 'ravel') and not args else reshape_key(ip, st, args)
        if order is not None and order is not string('C'):
            if order is string('F') and k in (('flat',), ('grid',)):
                k = ('flatF',) if k == ('flat',) else ('gridF',)
            elif order is not string('F') or not (n.op == 'num' or nd.shape_of(n) == 'scalar'):
                k = ('order', ip.node(st, order)) + k
        if k == ('gridF',) and nd.shape_of(n) == 'grid':
            k = ('grid',)
        if ref is not None and k == ('flat',):
            return ip.new(st, VC(ref, k)) if nd.idx(n, k) is not n else ip.new(st, VC(ref, ()))
        if k == ('grid',) and ref is not None and nd.idx(n, k) is n:
            return ip.new(st, VC(ref, ()))
        t = ret(nd.idx(n, k))
        if ref is not None:
            ip.alias(t, ref)
            if k == ('grid',) and isinstance(st.heap[t.loc], TC):
                st.heap[t.loc].shape = 'grid'
        return t
    if m == 'unsqueeze':
        t = ret(nd.idx(n, ('unsq',) + tuple(A)))
        if ref is not None:
            ip.alias(t, ref)
        return t
    if m == 'squeeze':
        if n.op in ('spmm', 'spsolve'):
            t = ret(n)
        else:
            t = ret(nd.idx(n, ('sq',) + tuple(A)))
        if ref is not None:
            ip.alias(t, ref)
        return t
    if m in ('permute',) or m == 'transpose' and args and nd.shape_of(n) == 'grid':
        ax = ip.seq(args[0], st) if len(args) == 1 else list(args)
        ax = [ip.node(st, x) for x in ax] if ax is not None else [None]
        if ax == [num(2), num(1), ZERO]:
            r = transpose(n)
        elif None not in ax:
            r = mk('perm', n, *ax)
        else:
            r = None
        if r is not None:
            t = T(ip, st, r, None) if istensor else r
            if istensor and ref is not None:
                ip.alias(t, ref)
            return t
    if m in ('t', 'transpose', 'T'):
        t = ret(transpose(n))
        if istensor and ref is not None:
            ip.alias(t, ref)
        return t
    if m in ('size', 'numel', '__len__', 'nelement') and ip.dims:
        d = ip.dims(n)
        if d is not None:
            if m == 'size':
                return d[int(A[0].args[0])] if A and A[0].op == 'num' else d if not A else mk('item', mk('tuple', *d), A[0])
            r = ONE
            for x in d:
                r = nd.mul(r, x)
            return r if m != '__len__' else d[0]
    if m == 'size':
        if not A:
            return mk('shape', n)
        return mk('item', mk('shape', n), A[0])
    if m == 'numel':
        return mk('red', 'numel', n)
    if m in ('clamp', 'clip', 'clamp_', 'clip_', 'clamp_min', 'clamp_max', 'clamp_min_', 'clamp_max_'):
        base = m.rstrip('_')
        if base == 'clamp_min':
            lo, hi = A[0], None
        elif base == 'clamp_max':
            lo, hi = None, A[0]
        else:
            lo, hi = kwarg(A, K, 0, 'min'), kwarg(A, K, 1, 'max')
        lo = None if lo is NONE else lo
        hi = None if hi is NONE else hi
        r = nd.clamp(n, lo, hi)
        return inplace(ip, st, o, m, r, e) if m.endswith('_') else ret(r)
    if m in ('abs',):
        return ret(nd.absn(n))
    if m in ('relu', 'relu_'):
        r = nd.maxn(n, ZERO)
        return inplace(ip, st, o, m, r, e) if m.endswith('_') else ret(r)
    if m in ELEM1:
        return ret(nd.fn(m, n))
    if m in ('neg',):
        return ret(nd.neg(n))
    if m in ('add', 'sub', 'mul', 'div', 'add_', 'sub_', 'mul_', 'div_', 'copy_', 'fill_', 'zero_'):
        b = m.rstrip('_')
        x = A[0] if A else ZERO
        al = K.get('alpha', ONE)
        if m in ('add_', 'sub_') and ref is not None and isinstance(st.heap.get(ref.loc), VC):
            ip.inplace_op(ref, ast.Add() if b == 'add' else ast.Sub(), nd.mul(al, x), st, e)
            return ref
        if b == 'add':
            r = nd.add(n, nd.mul(al, x))
        elif b == 'sub':
            r = nd.sub(n, nd.mul(al, x))
        elif b == 'mul':
            r = nd.mul(n, x)
        elif b == 'div':
            r = nd.div(n, x)
        elif b in ('copy', 'fill'):
            r = x
        else:
            r = ZERO
        return inplace(ip, st, o, m, r, e) if m.endswith('_') else ret(r)
    if m == 'pow':
        return ret(nd.power(n, A[0]))
    if m in ('maximum', 'fmax'):
        return ret(nd.maxn(n, A[0]))
    if m in ('minimum', 'fmin'):
        return ret(nd.minn(n, A[0]))
    if m == 'max' and A and not K and not (A[0].op == 'num'):
        return ret(nd.maxn(n, A[0]))
    if m == 'min' and A and not K and not (A[0].op == 'num'):
        return ret(nd.minn(n, A[0]))
    if m == 'where':
        return ret(nd.ite(A[0], n, A[1]))
    if m in ('gt', 'lt', 'ge', 'le', 'eq', 'ne'):
        return ret({'gt': nd.gt(n, A[0]), 'lt': nd.gt(A[0], n), 'ge': nd.ge(n, A[0]), 'le': nd.ge(A[0], n),
                    'eq': nd.eqn(n, A[0]), 'ne': nd.notn(nd.eqn(n, A[0]))}[m])
    if m == 'logical_and':
        return ret(nd.andn(n, A[0]))
    if m == 'logical_or':
        return ret(nd.orn(n, A[0]))
    if m == 'logical_not':
        return ret(nd.notn(n))
    if m in ('scatter_add_', 'index_add_', 'scatter_', 'scatter_add', 'index_add', 'scatter_reduce_', 'index_put_', 'index_copy_'):
        if m in ('index_put_',):
            s = A[0].args[0] if A[0].op == 'tuple' and A[0].args else A[0]
            acc = kwarg(A, K, 2, 'accumulate', FALSE)
            r = nd.add(n, nd.sc((mk('ix', s),), A[1])) if acc is TRUE else mk('upd', n, (s,), A[1])
            return inplace(ip, st, o, m, r, e)
        d, ix = A[0], A[1]
        src = kwarg(A, K, 2, 'src', kwarg(A, K, 2, 'source', K.get('value')))
        if m.rstrip('_') in ('scatter_add', 'index_add'):
            r = nd.add(n, mul_cat(ix, src))
        elif m == 'scatter_reduce_':
            r = mk('screduce', n, ix, src, *[mk('kw', k, v) for k, v in sorted(K.items())])
        else:
            r = mk('upd', n, (mk('ix', ix),), src)
        return inplace(ip, st, o, m, r, e) if m.endswith('_') else ret(r)
    if m in ('index_select',):
        return ret(nd.idx(n, (A[1],)))
    if m in ('gather',):
        return ret(nd.idx(n, (A[1],)))
    if m == 'narrow':
        d, s, l = A
        if d.op == 'num':
            k = [('sl', None, None)] * int(d.args[0])
            stop = nd.add(s, l)
            comp = ('sl', None if s is ZERO else s, ip.norm_stop(stop, int(d.args[0])))
            return viewed(ip, st, ref, n, tuple(k + [comp]))
    if m == 'select' and len(A) == 2 and A[0].op == 'num' and A[0].args[0] >= 0:
        return viewed(ip, st, ref, n, tuple([('sl', None, None)] * int(A[0].args[0]) + [A[1]]))
    if m in ('diff',):
        return ret(tdiff(n, K.get('dim', A[1] if len(A) > 1 else num(-1))))
    if m in ('fill_diagonal_',):
        return inplace(ip, st, o, m, mk('m', m, n, *A), e)
    if m in REDUCE:
        if m == 'dot':
            return ret(dotn(n, A[0]))
        r = reduce(m, n, A, K)
        return ret(r)
    if m in ('nan_to_num', 'nan_to_num_'):
        r = mk('fn', 'nan_to_num', n, *[K.get(x, NONE) for x in ('nan', 'posinf', 'neginf')])
        return inplace(ip, st, o, m, r, e) if m.endswith('_') else ret(r)
    if m == 'mv' or m == 'mm' or m == 'matmul':
        return ret(spmm(n, A[0]))
    if m == 'lerp':
        return ret(nd.add(n, nd.mul(A[1], nd.sub(A[0], n))))
    if m in ('values', 'indices', 'crow_indices', 'col_indices') and (istensor or n.op in ('sym', 'spcoo', 'spcsr', 'item')):
        t = T(ip, st, spattr(m, n))
        if ref is not None:
            ip.alias(t, ref)
        return t
    if m == 'diag' or m == 'diagonal':
        return ret(mk('diag', n))
    if m == 'new_zeros' or m == 'new_full':
        return ret(ZERO if m == 'new_zeros' else A[1])
    if m == 'tolist':
        return mk('m', 'tolist', n)
    if m == 'dim':
        return mk('m', 'dim', n)
    return None


def mul_cat(ix, src):
    """scatter-add over concatenated index/value parts, split part by part"""
    a = catparts(ix)
    b = catparts(src)
    if len(a) == len(b) and len(a) > 1:
        return nd.add(*[nd.sc((mk('ix', x),), y) for x, y in zip(a, b)])
    return nd.sc((mk('ix', ix),), src)


def catparts(n):
    """parts of a (scaled) concatenation"""
    if n.op == 'cat':
        out = []
        for x in n.args:
            out.extend(catparts(x))
        return out
    if n.op == 'poly' and len(n.args) == 1:
        m, c = n.args[0]
        for i, (a, e) in enumerate(m):
            if a.op == 'cat' and e == 1:
                f = nd.from_terms({m[:i] + m[i + 1:]: c})
                return [nd.mul(f, x) for x in catparts(a)]
    return [n]


def catn(parts):
    return mk('cat', *parts)


def dotn(a, b):
    if a.id > b.id:
        a, b = b, a
    return mk('red', 'dot', a, b)


def spmm(a, b):
    """sparse/dense matrix times vector (unsqueeze/squeeze pairs dropped)"""
    return mk('spmm', a, unsq(b, {}))


def unsq(b, memo):
    if b.op == 'idx' and b.args[1] and b.args[1][0] == 'unsq':
        return b.args[0]
    if b.op not in nd.ELEMWISE:
        return b
    r = memo.get(b)
    if r is None:
        r = memo[b] = nd.rebuild(b, lambda a: unsq(a, memo))
    return r


def reduce(m, n, A, K):
    m = {'amax': 'max', 'amin': 'min'}.get(m, m)
    extra = list(A) + [mk('kw', k, v) for k, v in sorted(K.items()) if k not in ('dtype',)]
    if n.op in ('tuple', 'list') and not extra:
        if m == 'prod':
            return nd.mul(*n.args)
        if m == 'sum':
            return nd.add(*n.args)
        if m in ('max', 'min'):
            return (nd.maxn if m == 'max' else nd.minn)(*n.args)
    if m == 'sum' and not extra:
        out = {}
        if n.op == 'num':
            return mk('red', 'sum', n)
        for mono, c in nd.terms(n).items():
            sc_, tv = [], []
            for a, e in mono:
                (sc_ if nd.shape_of(a) == 'scalar' else tv).append((a, e))
            r = mk('red', 'sum', nd.from_terms({tuple(tv): 1}))
            k = nd.mono_mul(tuple(sc_), ((r, 1),))
            out[k] = out.get(k, 0) + c
        return nd.from_terms(out)
    return mk('red', m, n, *extra)


def tdiff(n, dim):
    d = nd.numval(dim)
    d = 2 if d == -1 else int(d)
    pre = [('sl', None, None)] * d
    return nd.sub(nd.idx(n, tuple(pre + [('sl', ONE, None)])), nd.idx(n, tuple(pre + [('sl', None, num(-1))])))


def viewed(ip, st, ref, n, key):
    # part of a tensor: writing to it writes to the tensor
    return ip.new(st, VC(ref, key)) if ref is not None else nd.idx(n, key)


def inplace(ip, st, o, m, r, e):
    if isinstance(o, Ref):
        ip.event('mutate', m, (ip.roots(st, o),), {}, st, e)
        ip.set_tensor(st, o, r)
        return o
    ip.event('mutate?', m, (ip.node(st, o),), {}, st, e)
    return r


# ---------------------------------------------------------------- functions

def shape_arg(ip, st, args):
    a = list(args)
    if len(a) == 1:
        s = ip.seq(a[0], st)
        if s is not None:
            a = s
        else:
            n = ip.node(st, a[0])
            if n in ip.shape_hint:
                a = list(ip.shape_hint[n])
            elif n.op == 'tuple':
                a = list(n.args)
    ns = tuple(ip.node(st, x) for x in a)
    if nd.GRID_DIMS[0] and ns == tuple(nd.GRID_DIMS[0]):
        return 'grid'
    return ns


def call(ip, st, name, args, kw, e):
    parts = name.split('.')
    mod, f = parts[0], parts[-1]
    if mod == 'builtins':
        r = builtin(ip, st, f, args, kw, e)
        if r is not None:
            return r
        return ip.opaque_call(sym('ext', name), args, kw, st, e)
    A = [ip.node(st, a) for a in args]
    K = {k: ip.node(st, v) for k, v in kw.items()}
    r = None
    if isinstance(kw.get('out'), Ref) and ip.is_tensor(st, kw['out']):
        ip.event('mutate', f, (ip.roots(st, kw['out']),), {}, st, e)
    if name == 'numpy.copyto' and args and ip.is_tensor(st, args[0]):
        ip.event('mutate', f, (ip.roots(st, args[0]),), {}, st, e)
    if mod in ('torch', 'numpy', 'math'):
        r = array_fn(ip, st, mod, name, f, args, A, kw, K, e)
        if r is not None:
            if f in ('sparse_coo_tensor', 'sparse_csr_tensor', 'rand', 'randn', 'manual_seed', 'randint', 'randperm', 'solve', 'spsolve'):
                ip.event('call', name, A, K, st, e, ip.node(st, r))
            return r
    if mod == 'os' and f in ('join', 'basename', 'dirname', 'abspath'):
        return mk('path', f, *A)
    if name == 'tqdm.tqdm' or name == 'tqdm':
        return args[0]
    if mod == 'time' or mod == 'datetime':
        return mk('call', sym('ext', name))
    if name in ('json.load', 'json.loads'):
        r = mk('sym', 'json', A[0])
        ip.event('call', name, A, K, st, e, r)
        return r
    if name == 're.compile':
        return mk('re', A[0])
    if name.startswith('dataclasses.') or name.startswith('typing.'):
        return args[0] if args else NONE
    r = mk('call', sym('ext', name), *(A + [mk('kw', k, v) for k, v in sorted(K.items())]))
    ip.event('call', name, A, K, st, e, r)
    return r


def array_fn(ip, st, mod, name, f, args, A, kw, K, e):
    tens = any(ip.is_tensor(st, a) for a in args) or mod in ('torch',)

    def sh():
        for a in args:
            s = ip.shape(st, a)
            if s:
                return s
        return None

    def ret(x, shape=None):
        if mod == 'math':
            return x
        if mod == 'numpy' and not tens:
            return x
        return T(ip, st, x, shape or sh())

    if name.startswith('numpy.random') or name.startswith('torch.random') or f in ('rand', 'randn', 'randint', 'randperm', 'rand_like', 'randn_like', 'normal', 'bernoulli'):
        g = K.get('generator')
        r = mk('random', name, *(A + [mk('kw', k, v) for k, v in sorted(K.items())]))
        ip.event('random', name, A, K, st, e, r)
        return T(ip, st, r)
    if f in ('zeros', 'empty'):
        size = args if args else [kw['size']] if 'size' in kw else [kw['shape']] if 'shape' in kw else []
        return T(ip, st, ZERO if f == 'zeros' else sym('empty'), shape_arg(ip, st, size))
    if f == 'ones':
        return T(ip, st, ONE, shape_arg(ip, st, args))
    if f == 'full':
        v = A[1] if len(A) > 1 else K.get('fill_value')
        s = shape_arg(ip, st, args[:1] or [kw.get('size', kw.get('shape'))])
        t = T(ip, st, v, s)
        return t
    if f in ('zeros_like', 'empty_like'):
        return T(ip, st, ZERO, sh() or nd.shape_of(A[0]))
    if f == 'ones_like':
        return T(ip, st, ONE, sh())
    if f == 'full_like':
        return T(ip, st, A[1] if len(A) > 1 else K.get('fill_value'), sh())
    if f in ('tensor', 'as_tensor', 'asarray', 'array', 'from_numpy', 'ascontiguousarray', 'float64', 'float32', 'int64', 'asanyarray'):
        if not args:
            return None
        if args and ip.is_tensor(st, args[0]):
            t = T(ip, st, A[0], sh())
            if f in ('from_numpy', 'as_tensor', 'asarray', 'ascontiguousarray', 'asanyarray'):
                ip.alias(t, args[0])
            return t
        s = ip.seq(args[0], st)
        if s is not None:
            return T(ip, st, mk('tuple', *[ip.node(st, x) for x in s]))
        return T(ip, st, A[0])
    if f in ('clone', 'detach', 'squeeze', 'unsqueeze', 'flatten', 'reshape', 'ravel', 'transpose', 'clamp', 'clip', 'sum', 'mean',
             'norm', 'prod', 'any', 'all', 'median', 'std', 'cumsum', 'nonzero', 'argmax', 'dot', 'mv', 'mm', 'matmul', 'diag',
             'index_select', 'gather', 'scatter_add', 'nan_to_num', 'diff', 'neg', 'add', 'sub', 'mul', 'div', 'pow', 'copy', 't', 'square',
             'amax', 'amin', 'relu', 'gt', 'lt', 'ge', 'le', 'eq', 'ne', 'logical_and', 'logical_or', 'logical_not', 'lerp', 'narrow', 'var', 'count_nonzero') or f in ELEM1:
        if name.startswith('torch.sparse'):
            return ret(spmm(A[0], A[1]))
        if f == 'relu':
            return ret(nd.maxn(A[0], ZERO))
        recv = args[0] if args else None
        if recv is None:
            return None
        r = tensor_method(ip, st, recv, A[0], f, args[1:], A[1:], kw, K, e, tens)
        if r is None:
            return ret(mk('fn', name, *A))
        if mod != 'math' and isinstance(r, N) and tens and f not in ('numel',):
            return T(ip, st, r, sh())
        return r
    if name in ('numpy.linalg.norm', 'torch.linalg.norm', 'torch.linalg.vector_norm'):
        return ret(reduce('norm', A[0], A[1:], K))
    if f in ('abs', 'fabs', 'absolute'):
        return ret(nd.absn(A[0]))
    if f in ('maximum', 'fmax'):
        return ret(nd.maxn(*A))
    if f in ('minimum', 'fmin'):
        return ret(nd.minn(*A))
    if f in ('max', 'min') and len(A) == 2 and ip.is_tensor(st, args[1]):
        return ret((nd.maxn if f == 'max' else nd.minn)(*A))
    if f in ('max', 'min'):
        return ret(reduce(f, A[0], A[1:], K))
    if f == 'where':
        if len(A) == 1:
            return ret(mk('fn', 'where1', A[0]))
        c = A[0]
        return ret(nd.ite(nd.truthy(c), A[1], A[2]))
    if f in ('cat', 'concatenate', 'concat', 'hstack'):
        s = ip.seq(args[0], st)
        if s is not None:
            return ret(catn([ip.node(st, x) for x in s]))
        return ret(mk('cat_', A[0]))
    if f in ('stack', 'vstack'):
        s = ip.seq(args[0], st)
        d = kwarg(A, K, 1, 'dim', kwarg(A, K, 1, 'axis', ZERO))
        if s is not None:
            return ret(mk('stack', *([ip.node(st, x) for x in s] + ([d] if d is not ZERO else []))))
        return ret(mk('stack_', A[0]))
    if f == 'arange':
        a = [x for x in A]
        if len(a) == 1:
            a = [ZERO, a[0]]
        return ret(mk('arange', *a))
    if f == 'linspace':
        return ret(mk('fn', 'linspace', *A))
    if f == 'sparse_coo_tensor':
        return ret(mk('spcoo', A[0], A[1], *([A[2]] if len(A) > 2 else [K['size']] if 'size' in K else [])))
    if f == 'sparse_csr_tensor':
        if [x.op for x in A[:3]] == ['spattr'] * 3 and [x.args[0] for x in A[:3]] == ['crow_indices', 'col_indices', 'values'] \
                and A[0].args[1] is A[1].args[1] is A[2].args[1]:
            return ret(A[0].args[1])
        return ret(mk('spcsr', A[0], A[1], A[2], *([A[3]] if len(A) > 3 else [K['size']] if 'size' in K else [])))
    if f == 'interp':
        K = dict(K)
        for nm, x in zip(('left', 'right', 'period'), A[3:]):
            K[nm] = x
        for nm, i in (('left', 0), ('right', -1)):
            # held at the end value: the default
            if nm in K and (K[nm] is NONE or K[nm] is ip.node(st, ip.getitem(args[2], num(i), st, None))):
                del K[nm]
        if not K:
            # limiting the argument to the table's range first: the default behaviour once more
            ends = [ip.node(st, ip.getitem(args[1], num(i), st, None)) for i in (0, -1)]
            A[0] = unclamped(A[0], *ends)
        return ret(mk('interp', *(A[:3] + [mk('kw', k, v) for k, v in sorted(K.items())])))
    if f == 'atan2':
        return ret(nd.fn('atan2', *A))
    if f == 'isclose' or f == 'allclose':
        return ret(mk('fn', f, *A))
    if f == 'is_available':
        return mk('truthy', sym('cuda_available'))
    if f == 'device':
        return mk('call', sym('ext', name), *A)
    if f == 'unravel_index':
        return None
    if f == 'pi':
        return None
    if f in ('no_grad', 'inference_mode', 'enable_grad'):
        return NONE
    if f == 'isspmatrix_csr':
        return None
    if mod == 'math':
        return mk('fn', f, *A)
    if f == 'Generator':
        r = ip.new(st, TC(mk('generator', num(len(ip.events)))))
        return r
    if f == 'manual_seed':
        return NONE
    return None


def builtin(ip, st, f, args, kw, e):
    if f == 'print':
        return NONE
    if f == 'super':
        fr = ip.stack[-1]
        return SuperV(fr.cls, st.env.get(fr.node.args.args[0].arg) if fr.node is not None and fr.node.args.args else NONE)
    if f == 'range':
        a = [ip.node(st, x) for x in args]
        if len(a) == 1:
            a = [ZERO, a[0], ONE]
        elif len(a) == 2:
            a = a + [ONE]
        return RangeV(*a)
    if f == 'slice':
        a = [ip.node(st, x) for x in args]
        if len(a) == 1:
            return SliceV(NONE, a[0], NONE)
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else NONE)
    if f in ('float', 'complex'):
        if not args:
            return ZERO
        n = ip.node(st, args[0])
        if n.op == 'str':
            s = n.args[0].strip().lower()
            if s in ('inf', '+inf', 'infinity'):
                return sym('+inf')
            if s == '-inf':
                return sym('-inf')
            if s == 'nan':
                return sym('nan')
        if nd.is_bool(n):
            return nd.ite(n, ONE, ZERO)
        return n
    if f == 'int':
        if not args:
            return ZERO
        n = ip.node(st, args[0])
        if n.op == 'num':
            return num(int(n.args[0]))
        if n.op == 'fn' and n.args[0] in ('ceil', 'floor', 'round', 'int'):
            return n
        if n.op in ('get',) or (n.op == 'attr'):
            return mk('fn', 'int', n)
        if n.op == 'red' and n.args[0] == 'numel':
            return n
        return mk('fn', 'int', n)
    if f == 'bool':
        return ip.truth(st, args[0]) if args else FALSE
    if f == 'str':
        n = ip.node(st, args[0]) if args else string('')
        if n.op == 'call' and n.args[0].op == 'sym' and n.args[0].args[-1] == 'torch.device' and len(n.args) == 2 and n.args[1].op == 'str':
            return n.args[1]
        return n if n.op == 'str' else mk('fstr', n)
    if f == 'abs':
        n = ip.node(st, args[0])
        return ip.like(args[0], nd.absn(n), st)
    if f in ('max', 'min'):
        op = nd.maxn if f == 'max' else nd.minn
        if len(args) == 1:
            v = args[0]
            if isinstance(v, Ref) and isinstance(st.heap.get(v.loc), LC):
                c = st.heap[v.loc]
                if c.base is None and c.elem is None:
                    inf = sym('-inf' if f == 'max' else '+inf')
                    xs = []
                    for g, x in c.items:
                        n = ip.node(st, x)
                        xs.append(n if g is TRUE else mk('ite', g, n, inf))
                    if xs:
                        return op(*xs)
            s = ip.seq(v, st)
            if s:
                return op(*[ip.node(st, x) for x in s])
            return mk('red', f, ip.node(st, v), *([mk('kw', 'default', ip.node(st, kw['default']))] if 'default' in kw else []))
        ns = [ip.node(st, a) for a in args]
        r = op(*ns)
        for a in args:
            if ip.is_tensor(st, a):
                return ip.tensor(st, r)
        return r
    if f == 'sum':
        s = ip.seq(args[0], st)
        if s is not None:
            r = ip.node(st, args[1]) if len(args) > 1 else ZERO
            for x in s:
                r = nd.add(r, ip.node(st, x))
            return r
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.heap.get(v.loc), LC):
            c = st.heap[v.loc]
            if c.base is None and c.elem is None:
                return nd.add(*[nd.ite(g, ip.node(st, x), ZERO) for g, x in c.items])
        return mk('red', 'sum', ip.node(st, args[0]))
    if f == 'len':
        v = args[0]
        s = ip.seq(v, st)
        if s is not None:
            return num(len(s))
        n = ip.node(st, v)
        if n.op == 'str':
            return num(len(n.args[0]))
        r = mk('fn', 'len', n)
        return r
    if f == 'enumerate':
        v = args[0]
        items = ip.concrete_items(v, st)
        s0 = ip.node(st, args[1]) if len(args) > 1 else ip.node(st, kw['start']) if 'start' in kw else ZERO
        if items is not None:
            return tuple((nd.add(s0, num(i)), x) for i, x in enumerate(items))
        base, elem = ip.iter_elem(v, st, e)
        iv = mk('iv', mk('enum', base))
        nd.SHAPES[iv] = 'scalar'
        return IterV(mk('enum', base), (nd.add(s0, iv), elem))
    if f == 'zip':
        its = [ip.concrete_items(a, st) for a in args]
        if all(i is not None for i in its):
            return tuple(tuple(x) for x in zip(*its))
        els = [ip.iter_elem(a, st, e) for a in args]
        return IterV(mk('zip', *[b for b, _ in els]), tuple(x for _, x in els))
    if f in ('list', 'tuple', 'set', 'frozenset'):
        if not args:
            return ip.new(st, LC(())) if f == 'list' else ()
        items = ip.concrete_items(args[0], st)
        n0 = ip.node(st, args[0])
        if items is None and n0 in ip.shape_hint:
            items = list(ip.shape_hint[n0])
        if items is not None:
            return ip.new(st, LC([(TRUE, x) for x in items])) if f == 'list' else tuple(items)
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.heap.get(v.loc), LC):
            c = st.heap[v.loc]
            return ip.new(st, LC(c.items, c.elem, c.base))
        return n0
    if f == 'dict':
        d = {}
        base = None
        if args and isinstance(args[0], Ref) and isinstance(st.heap.get(args[0].loc), DC):
            c = st.heap[args[0].loc]
            d.update(c.entries)
            base = c.base
        elif args:
            its = ip.concrete_items(args[0], st)
            pairs = its and [ip.concrete_items(x, st) for x in its]
            if its is not None and all(x is not None and len(x) == 2 for x in pairs or ()):
                d.update((ip.node(st, k), v) for k, v in pairs or ())
            else:
                base = ip.node(st, args[0])
        for k, v in kw.items():
            d[string(k)] = v
        return ip.new(st, DC(d, base))
    if f == 'sorted':
        items = args[0]
        n = ip.node(st, items)
        key = kw.get('key')
        kn = NONE
        if isinstance(key, FuncV):
            kn = ip.node(st, ip.call(key, [sym('elem', '$sort')], {}, st, e))
        elif key is not None:
            kn = ip.node(st, key)
        rev = ip.node(st, kw['reverse']) if 'reverse' in kw else FALSE
        return ip.new(st, LC((), None, mk('sorted', n, kn, rev)))
    if f == 'reversed':
        items = ip.concrete_items(args[0], st)
        if items is not None:
            return tuple(reversed(items))
        return mk('reversed', ip.node(st, args[0]))
    if f == 'isinstance':
        cls = args[1]
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.heap.get(v.loc), OC) and isinstance(cls, ClassV):
            c = st.heap[v.loc].cls
            return TRUE if c is cls else FALSE
        n = ip.node(st, v)
        nm = [x.name for x in (cls if isinstance(cls, tuple) else (cls,)) if isinstance(x, (ExtV, ClassV))]
        if n.op == 'str':
            return TRUE if 'builtins.str' in nm else FALSE
        if ip.is_tensor(st, v) and 'torch.Tensor' in nm:
            return TRUE
        if isinstance(v, Ref) and isinstance(st.heap.get(v.loc), DC):
            return TRUE if 'builtins.dict' in nm else FALSE
        return mk('isinst', n, *[string(x) for x in nm])
    if f == 'getattr':
        a = ip.node(st, args[1])
        if a.op != 'str':
            return mk('attr', ip.node(st, args[0]), nd.show(a))
        name = a.args[0]
        d = args[2] if len(args) > 2 else None
        o = args[0]
        if isinstance(o, Ref) and isinstance(st.heap.get(o.loc), OC):
            c = st.heap[o.loc]
            if name in c.attrs or (c.cls and c.cls.lookup(name)):
                return ip.getattr(o, name, st, e)
            if d is not None:
                if c.base is not None:
                    return mk('attr', c.base, name)
                return d
        return ip.getattr(o, name, st, e, d)
    if f == 'setattr':
        a = ip.node(st, args[1])
        if a.op == 'str':
            ip.setattr(args[0], a.args[0], args[2], st, e)
        elif a.op == 'ite':
            pass
        return NONE
    if f == 'hasattr':
        a = ip.node(st, args[1])
        o = args[0]
        if isinstance(o, Ref) and isinstance(st.heap.get(o.loc), OC) and a.op == 'str':
            c = st.heap[o.loc]
            if a.args[0] in c.attrs or (c.cls and c.cls.lookup(a.args[0])):
                return TRUE
            if c.base is None:
                return FALSE
        if isinstance(o, ExtV) and o.name == 'torch' and a.op == 'str' and a.args[0] in ('jit', 'cuda', 'sparse', 'linalg', 'nn'):
            return TRUE
        return mk('hasattr', ip.node(st, o), a)
    if f == 'open':
        A = [ip.node(st, a) for a in args]
        r = mk('file', *A)
        ip.event('call', 'open', A, {k: ip.node(st, v) for k, v in kw.items()}, st, e, r)
        return r
    if f in ('any', 'all'):
        s = ip.seq(args[0], st)
        if s is not None:
            cs = [ip.truth(st, x) for x in s]
            return nd.orn(*cs) if f == 'any' else nd.andn(*cs)
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.heap.get(v.loc), LC):
            c = st.heap[v.loc]
            if c.base is not None:
                return mk('truthy', mk('fn', f, c.base))
        return mk('truthy', mk('fn', f, ip.node(st, args[0])))
    if f == 'round':
        n = ip.node(st, args[0])
        k = [ip.node(st, x) for x in list(args[1:]) + list(kw.values())]
        k = [x for x in k if x is not NONE and x is not ZERO]
        if n.op == 'num' and all(x.op == 'num' for x in k):
            return num(Fr(round(Fr(n.args[0]), *[int(x.args[0]) for x in k])))
        return mk('fn', 'round', n, *k)
    if f == 'pow':
        return nd.power(ip.node(st, args[0]), ip.node(st, args[1]))
    if f == 'map':
        items = ip.concrete_items(args[1], st)
        if items is not None:
            return tuple(ip.call(args[0], [x], {}, st, e) for x in items)
        return None
    if f == 'type':
        return mk('typeof', ip.node(st, args[0]))
    if f == 'iter':
        return args[0]
    if f == 'next':
        items = ip.concrete_items(args[0], st)
        if items:
            return items[0]
        return None
    if f in ('ValueError', 'RuntimeError', 'KeyError', 'TypeError', 'Exception', 'NotImplementedError', 'IndexError', 'ImportError', 'AssertionError', 'OSError', 'FileNotFoundError'):
        return sym('exc', f)
    return None


def unclamped(x, lo, hi):
    """x without an outer limit to [lo, hi]"""
    for _ in range(2):
        for op, end in (('max', lo), ('min', hi)):
            if x.op == op and end in x.args:
                rest = [a for a in x.args if a is not end]
                if rest:
                    x = rest[0] if len(rest) == 1 else (nd.maxn if op == "max" else nd.minn)(*rest)
    return x

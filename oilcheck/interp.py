"""Abstract interpreter: computes, for a repo function, the value-graph node of every
variable, attribute and tensor at every exit, in one pass over the syntax tree.

* branches are joined with gated nodes (no path enumeration),
* loops over unknown ranges are summarised (loop-carried variables are havocked to
  `mu` nodes; additive accumulators become `sum` nodes),
* repo functions are inlined through the resolved call graph,
* library calls are modelled in ext.py or stay uninterpreted.
"""
import ast
import os
from . import nodes as nd
from .nodes import mk, num, string, sym, NONE, TRUE, FALSE, ZERO, ONE, N
from .values import *


class PathDead(Exception):
    pass


class AnalysisError(Exception):
    pass


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.env = {}
        self.ready = False


class State:
    __slots__ = ('heap', 'env', 'pc')

    def __init__(self, heap, env, pc):
        self.heap, self.env, self.pc = heap, env, pc

    def fork(self):
        return State(dict(self.heap), dict(self.env), self.pc)


class Event:
    __slots__ = ('kind', 'name', 'args', 'kw', 'pc', 'path', 'line', 'func', 'val', 'stack', 'loops')

    def __init__(self, kind, name, args, kw, pc, path, line, func, val=None, stack=(), loops=()):
        self.loops = loops
        self.kind, self.name, self.args, self.kw, self.pc = kind, name, args, kw, pc
        self.path, self.line, self.func, self.val, self.stack = path, line, func, val, stack

    def where(self):
        return '%s:%s (%s)' % (self.path, self.line, self.func)

    def __repr__(self):
        return '<%s %s %s>' % (self.kind, self.name, self.where())


BUILTINS = {'print', 'len', 'range', 'float', 'int', 'str', 'bool', 'abs', 'min', 'max', 'sum', 'enumerate', 'zip',
            'list', 'tuple', 'dict', 'set', 'isinstance', 'getattr', 'setattr', 'hasattr', 'sorted', 'reversed',
            'super', 'open', 'type', 'slice', 'any', 'all', 'round', 'map', 'filter', 'repr', 'iter', 'next', 'id',
            'callable', 'vars', 'divmod', 'pow', 'object', 'complex', 'frozenset', 'property', 'staticmethod',
            'classmethod', 'input', 'format', 'hash', 'ord', 'chr', 'exit', 'dir', 'globals', 'locals', 'bytes'}
EXCS = {'Exception', 'ValueError', 'KeyError', 'RuntimeError', 'TypeError', 'NotImplementedError', 'ImportError',
        'AttributeError', 'IndexError', 'OSError', 'FileNotFoundError', 'ZeroDivisionError', 'AssertionError',
        'StopIteration', 'ArithmeticError', 'OverflowError', 'FloatingPointError', 'IOError', 'LookupError',
        'BaseException', 'KeyboardInterrupt', 'UserWarning', 'Warning', 'DeprecationWarning', 'RuntimeWarning',
        'ModuleNotFoundError', 'NameError', 'MemoryError', 'PermissionError', 'UnicodeDecodeError'}

MAXDEPTH = 24


class Interp:
    def __init__(self, repo='/repo', srcroot='src', overlay=None):
        self.repo = repo
        self.root = os.path.join(repo, srcroot)
        self.modules = {}
        self.events = []
        self.heap0 = {}
        self.loc = 0
        self.stack = []          # (FuncV)
        self.assume = {}         # node -> bool
        self.prov = {}           # node id -> (path,line,func)
        self.line = 0
        self.watch = True
        self.implicit_exc = False
        self.maybe_alias = {}
        self.backedges = []
        self.loop_table = {}
        self.loop_back = {}      # loop -> condition under which an iteration is followed by another one
        self.loops = []          # loops being interpreted, innermost last
        self.loopctr = {}
        self.functions_analysed = set()
        self.recursion = 1      # nested calls of the same function followed
        self.opaque = []         # constructs not modelled
        self.stubs = {}          # qualname -> python callable(interp, st, args, kwargs) -> value
        self.mute = 0
        self.shape_hint = {}
        self._appended = {}
        self.linsolve_hook = False
        self.flags = None
        self.oracle = None      # condition -> True/False/None, for worlds which fork on data-dependent conditions
        self.dims = None        # tensor node -> tuple of sizes, for worlds with known sizes
        self.linsolves = []
        self._load_all()

    # ------------------------------------------------------------ loading
    def _load_all(self):
        for dp, dn, fns in os.walk(self.root):
            dn.sort()
            for f in sorted(fns):
                if f.endswith('.py'):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    src = open(p, encoding='utf-8').read()
                    self.modules[rel] = Module(rel, os.path.relpath(p, self.repo), ast.parse(src), src)

    def add_source(self, name, src):
        m = Module(name, '<%s>' % name, ast.parse(src), src)
        self.modules[name] = m
        return m

    def module(self, name):
        m = self.modules[name]
        if not m.ready:
            m.ready = True
            st = State(self.heap0, m.env, frozenset())
            m.env['__name__'] = string(name)
            m.env['__file__'] = string(m.path)
            self.stack.append(_ModFrame(m))
            try:
                for s in m.tree.body:
                    try:
                        outs = self.exec_stmt(s, st, m)
                    except PathDead:
                        continue
                    for k, s2, v in outs:
                        if k == 'normal':
                            if s2 is not st:
                                m.env.update(s2.env)
                                self.heap0 = s2.heap
                                st = State(self.heap0, m.env, frozenset())
            finally:
                self.stack.pop()
            self.heap0 = st.heap
        return m

    def ready_all(self):
        for n in list(self.modules):
            self.module(n)

    # ------------------------------------------------------------ heap helpers
    def new(self, st, cell):
        self.loc += 1
        st.heap[self.loc] = cell
        return Ref(self.loc)

    def tensor(self, st, node, shape=None):
        return self.new(st, TC(node, shape))

    def cell(self, st, r):
        return st.heap[r.loc]

    def node(self, st, v):
        """node denoting value v"""
        if isinstance(v, N):
            return v
        if isinstance(v, Ref):
            c = st.heap.get(v.loc)
            if isinstance(c, TC):
                return c.node
            if isinstance(c, VC):
                return nd.idx(self.node(st, c.parent), c.key)
            if isinstance(c, OC):
                if c.base is not None:
                    return c.base
                return mk('sym', 'obj', c.cls.name if c.cls else '?', v.loc)
            if isinstance(c, LC):
                if c.base is not None:
                    return c.base
                if c.elem is not None:
                    return mk('listof', self.node(st, c.elem))
                return mk('list', *[self.node(st, x) if g is TRUE else mk('guarded', g, self.node(st, x)) for g, x in c.items])
            if isinstance(c, DC):
                if c.base is not None and not c.entries:
                    return c.base
                return mk('dict', c.base or NONE, *[mk('tuple', k, self.node(st, x)) for k, x in sorted(c.entries.items(), key=lambda p: p[0].id)])
            return mk('sym', 'loc', v.loc)
        if isinstance(v, tuple):
            return mk('tuple', *[self.node(st, x) for x in v])
        if isinstance(v, UnionV):
            return nd.ite(v.cond, self.node(st, v.a), self.node(st, v.b))
        if isinstance(v, FuncV):
            return sym('func', v.qual)
        if isinstance(v, ClassV):
            return sym('class', v.name)
        if isinstance(v, ExtV):
            return sym('ext', v.name)
        if isinstance(v, SliceV):
            return mk('slice', *[self.node(st, x) for x in (v.start, v.stop, v.step)])
        if isinstance(v, RangeV):
            return mk('range', v.start, v.stop, v.step)
        if isinstance(v, IterV):
            return v.base
        if isinstance(v, BoundV):
            return sym('bound', v.func.qual)
        if isinstance(v, MethV):
            return sym('meth', v.name)
        if v is UNDEF:
            return sym('undef')
        if isinstance(v, ModV):
            return sym('mod', v.mod.name)
        if isinstance(v, EllipsisV):
            return sym('ellipsis')
        return sym('value', type(v).__name__)

    def is_tensor(self, st, v):
        return isinstance(v, Ref) and isinstance(st.heap.get(v.loc), (TC, VC))

    def shape(self, st, v):
        if isinstance(v, Ref):
            c = st.heap.get(v.loc)
            if isinstance(c, TC):
                return c.shape
        return None

    def set_tensor(self, st, r, node):
        c = st.heap[r.loc]
        if isinstance(c, VC):
            p = c.parent
            old = self.node(st, p)
            if c.key == ('flat',):
                newv = nd.idx(node, ('grid',)) if nd.shape_of(node) != 'scalar' else node
                self.set_tensor(st, p, newv)
            else:
                self.set_tensor(st, p, self.setkey(old, c.key, node))
        else:
            st.heap[r.loc] = TC(node, c.shape)

    def roots(self, st, r):
        """set of root locations a ref may share storage with"""
        out = set()
        work = [r.loc]
        while work:
            l = work.pop()
            if l in out:
                continue
            out.add(l)
            c = st.heap.get(l)
            if isinstance(c, VC):
                work.append(c.parent.loc)
            work += self.maybe_alias.get(l, ())
        return out

    def alias(self, r, *others):
        """the tensor r may share its storage with the others"""
        for o in others:
            for x in ((o.a, o.b) if isinstance(o, UnionV) else (o,)):
                if isinstance(x, Ref) and x.loc != r.loc:
                    q = self.maybe_alias.get(r.loc, ())
                    if x.loc not in q:
                        self.maybe_alias[r.loc] = q + (x.loc,)

    def setkey(self, old, key, val):
        """value of tensor `old` after old[key] = val"""
        # accumulation pattern: val = old[key] + d
        if not key:
            return val
        cur = nd.idx(old, key)
        if len(key) == 1 and isinstance(key[0], N) and nd.is_bool(key[0]):
            m = key[0]
            v = unmask(val, m)
            return nd.ite(m, v, old)
        if all(isinstance(k, N) and not nd.is_bool(k) and counted(k) for k in key) and \
                (old.op == 'mu' or old.op == 'poly' and any(a.op in ('mu', 'sc') for m, _ in old.args for a, _ in m)):
            d = nd.sub(val, cur)
            own = {x for x in nd.walk(cur) if x.op == 'idx' and x.args[1] == key}
            if own and not any(x in own for x in nd.walk(d)):
                return nd.add(old, nd.sc(key, d))
        if old.op == 'upd' and old.args[1] == key:
            old = old.args[0]
        return mk('upd', old, key, val)

    # ------------------------------------------------------------ decisions
    def decide(self, c, st):
        if c is TRUE or c is FALSE:
            return c
        r = self._dec(c, st.pc)
        if r is None:
            return c
        return TRUE if r else FALSE

    def _dec(self, c, pc):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.assume:
            return self.assume[c]
        if self.oracle is not None:
            r = self.oracle(c)
            if r is not None:
                return r
        if self.flags is not None and c.op == 'truthy' and c.args[0].op == 'item' and c.args[0].args[0].op == 'linsolve':
            return self.flags
        if c in pc:
            return True
        if c.op == 'not':
            r = self._dec(c.args[0], pc)
            return None if r is None else not r
        n = nd.notn(c)
        if n in pc:
            return False
        if c.op == 'and':
            rs = [self._dec(x, pc) for x in c.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if c.op == 'or':
            rs = [self._dec(x, pc) for x in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if c.op == 'eq':
            a, b = c.args
            for x, y in ((a, b), (b, a)):
                if y.op in ('str', 'none', 'num'):
                    for l in pc:
                        if l.op == 'eq' and x in l.args:
                            o = l.args[0] if l.args[1] is x else l.args[1]
                            if o.op in ('str', 'none', 'num') and o is not y:
                                return False
                    for l, v in self.assume.items():
                        if v and l.op == 'eq' and x in l.args:
                            o = l.args[0] if l.args[1] is x else l.args[1]
                            if o.op in ('str', 'none', 'num') and o is not y:
                                return False
                    if y is NONE and self.not_none(x):
                        return False
        if c.op == 'truthy' and self.not_none_truthy(c.args[0]):
            return True
        return None

    def not_none(self, n):
        if n in nd.SHAPES:
            return True
        return n.op in ('num', 'poly', 'str', 'bool', 'max', 'min', 'abs', 'pow', 'fn', 'sc', 'upd', 'sum', 'spcoo', 'tuple', 'list', 'dict', 'call')\
            or n.op in nd.BOOLOPS or (n.op == 'idx')

    def not_none_truthy(self, n):
        return n.op == 'tuple' and len(n.args) > 0

    def truth(self, st, v):
        """boolean node for value v"""
        if isinstance(v, N):
            return self.decide(nd.truthy(v), st)
        if isinstance(v, tuple):
            return TRUE if v else FALSE
        if isinstance(v, UnionV):
            c = self.decide(v.cond, st)
            return nd.ite(c, self.truth(st, v.a), self.truth(st, v.b))
        if isinstance(v, Ref):
            c = st.heap.get(v.loc)
            if isinstance(c, LC):
                if c.elem is not None or c.base is not None:
                    return self.decide(nd.truthy(self.node(st, v)), st)
                return nd.orn(*[g for g, _ in c.items])
            if isinstance(c, DC):
                if c.entries:
                    return TRUE
                if c.base is not None:
                    return self.decide(nd.truthy(c.base), st)
                return FALSE
            if isinstance(c, OC):
                return TRUE
            return self.decide(nd.truthy(self.node(st, v)), st)
        return TRUE

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b, s1, s2, out):
        if a is b:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.loc == b.loc:
                return a
            c1, c2 = s1.heap.get(a.loc), s2.heap.get(b.loc)
            if isinstance(c1, (TC, VC)) and isinstance(c2, (TC, VC)):
                n1, n2 = self.node(s1, a), self.node(s2, b)
                sh = c1.shape if isinstance(c1, TC) else None
                r = self.new(out, TC(nd.ite(c, n1, n2), sh))
                self.alias(r, a, b)
                return r
            if isinstance(c1, LC) and isinstance(c2, LC):
                m = self.merge_list(c, c1, c2, s1, s2, out)
                if m is not None:
                    return self.new(out, m)
            if isinstance(c1, DC) and isinstance(c2, DC):
                return self.new(out, self.merge_dict(c, c1, c2, s1, s2, out))
            return UnionV(c, a, b)
        if isinstance(a, N) and isinstance(b, N):
            return nd.ite(c, a, b)
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        ta, tb = self.is_tensor(s1, a), self.is_tensor(s2, b)
        if (ta or isinstance(a, N)) and (tb or isinstance(b, N)) and (ta or tb):
            na, nb = self.node(s1, a), self.node(s2, b)
            if na.op in ('none', 'str') or nb.op in ('none', 'str'):
                return UnionV(c, a, b)
            return self.new(out, TC(nd.ite(c, na, nb)))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y, s1, s2, out) for x, y in zip(a, b))
        if type(a) is type(b) and isinstance(a, (ExtV, FuncV, ClassV)) and getattr(a, 'name', 0) == getattr(b, 'name', 1) and \
                getattr(a, 'node', None) is getattr(b, 'node', None):
            return a
        if isinstance(a, RangeV) and isinstance(b, RangeV):
            return RangeV(nd.ite(c, a.start, b.start), nd.ite(c, a.stop, b.stop), nd.ite(c, a.step, b.step))
        if isinstance(a, BoundV) and isinstance(b, BoundV) and a.func is b.func and a.selfv == b.selfv:
            return a
        return UnionV(c, a, b)

    def merge_list(self, c, a, b, s1, s2, out):
        if a.base is not None or b.base is not None or a.elem is not None or b.elem is not None:
            if a.base is b.base and a.elem == b.elem and a.items == b.items:
                return a
            if a.elem is not None or b.elem is not None:
                return None
            return None
        i = 0
        items = []
        while i < min(len(a.items), len(b.items)):
            (g1, x1), (g2, x2) = a.items[i], b.items[i]
            same = x1 is x2 or x1 == x2
            if same:
                items.append((g1 if g1 is g2 else nd.ite(c, g1, g2), x1))
                i += 1
            else:
                break
        if len(a.items) == len(b.items) and i < len(a.items) and all(g is TRUE for g, _ in a.items) and all(g is TRUE for g, _ in b.items):
            return LC([(TRUE, x if x is y else self.merge_val(c, x, y, s1, s2, out)) for (_, x), (_, y) in zip(a.items, b.items)])
        for g, x in a.items[i:]:
            items.append((nd.andn(c, g), x))
        for g, x in b.items[i:]:
            items.append((nd.andn(nd.notn(c), g), x))
        return LC(items)

    def merge_dict(self, c, a, b, s1, s2, out):
        e = {}
        for k in list(a.entries) + [k for k in b.entries if k not in a.entries]:
            x = a.entries.get(k, UNDEF)
            y = b.entries.get(k, UNDEF)
            if x is UNDEF or y is UNDEF:
                base = (a if x is UNDEF else b).base
                if base is not None:
                    d = mk('get', base, k, NONE)
                    if x is UNDEF:
                        x = d
                    else:
                        y = d
            e[k] = self.merge_val(c, x, y, s1, s2, out)
        return DC(e, a.base if a.base is not None else b.base)

    def merge_cell(self, c, a, b, s1, s2, out):
        if a is b:
            return a
        if isinstance(a, TC) and isinstance(b, TC):
            if a.node is b.node:
                return a
            return TC(nd.ite(c, a.node, b.node), a.shape)
        if isinstance(a, OC) and isinstance(b, OC):
            attrs = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                x, y = a.attrs.get(k, UNDEF), b.attrs.get(k, UNDEF)
                if (x is UNDEF or y is UNDEF) and a.base is not None:
                    d = mk('attr', a.base, k)
                    x = d if x is UNDEF else x
                    y = d if y is UNDEF else y
                attrs[k] = self.merge_val(c, x, y, s1, s2, out)
            return OC(a.cls, attrs, a.base)
        if isinstance(a, LC) and isinstance(b, LC):
            m = self.merge_list(c, a, b, s1, s2, out)
            return m if m is not None else LC((), None, mk('ite', c, self._lcnode(a), self._lcnode(b)))
        if isinstance(a, DC) and isinstance(b, DC):
            return self.merge_dict(c, a, b, s1, s2, out)
        return a

    def _lcnode(self, c):
        return c.base if c.base is not None else sym('listcell', id(c))

    def merge(self, c, s1, s2, envs=True):
        """join of s1 (c true) and s2 (c false)"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        out = State({}, {}, s1.pc & s2.pc)
        h1, h2 = s1.heap, s2.heap
        oh = out.heap
        diff = []
        for l, c1 in h1.items():
            c2 = h2.get(l)
            if c2 is None or c1 is c2:
                oh[l] = c1
            else:
                oh[l] = c1
                diff.append(l)
        for l, c2 in h2.items():
            if l not in h1:
                oh[l] = c2
        for l in diff:
            oh[l] = self.merge_cell(c, h1[l], h2[l], s1, s2, out)
        if envs:
            for k, v1 in s1.env.items():
                v2 = s2.env.get(k, UNDEF)
                out.env[k] = v1 if v1 is v2 else self.merge_val(c, v1, v2, s1, s2, out)
            for k, v2 in s2.env.items():
                if k not in s1.env:
                    out.env[k] = v2
        return out

    def cond_of(self, pc, base):
        return nd.andn(*[x for x in pc if x not in base])

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, mod):
        """returns list of (kind, state, value)"""
        outs = []
        cur = st
        for s in stmts:
            try:
                os_ = self.exec_stmt(s, cur, mod)
            except PathDead:
                outs.append(('raise', cur, None))
                return outs
            cur = None
            normals = []
            for o in os_:
                if o[0] == 'normal':
                    normals.append(o[1])
                else:
                    outs.append(o)
            if not normals:
                return outs
            cur = normals[0]
            assert len(normals) == 1
        outs.append(('normal', cur, None))
        return outs

    def where(self, n):
        f = self.stack[-1] if self.stack else None
        return (f.module.path if f else '?', getattr(n, 'lineno', None) or self.line, f.qual if f else '?')

    def event(self, kind, name, args, kw, st, n, val=None):
        if self.mute:
            return
        p, l, f = self.where(n)
        self.events.append(Event(kind, name, args, kw, st.pc, p, l, f, val, tuple(x.qual for x in self.stack), tuple(self.loops)))

    def exec_stmt(self, s, st, mod):
        self.line = s.lineno
        t = type(s)
        m = getattr(self, 's_' + t.__name__, None)
        if m is None:
            self.opaque.append(('stmt ' + t.__name__,) + self.where(s))
            return [('normal', st, None)]
        return m(s, st, mod)

    def s_Expr(self, s, st, mod):
        if isinstance(s.value, ast.Constant):
            return [('normal', st, None)]
        self.eval(s.value, st, mod)
        return [('normal', st, None)]

    def s_Pass(self, s, st, mod):
        return [('normal', st, None)]

    s_Global = s_Nonlocal = s_Pass

    def s_Assert(self, s, st, mod):
        c = self.truth(st, self.eval(s.test, st, mod))
        if c is FALSE:
            return [('raise', st, None)]
        if c is not TRUE:
            st.pc = st.pc | {c}
        return [('normal', st, None)]

    def s_Delete(self, s, st, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            else:
                self.event('delete', ast.unparse(t), (), {}, st, s)
        return [('normal', st, None)]

    def s_Import(self, s, st, mod):
        for a in s.names:
            top = a.name.split('.')[0]
            if a.name in self.modules:
                v = ModV(self.module(a.name))
            else:
                v = ExtV(a.name if a.asname else top)
            st.env[a.asname or top] = v
        return [('normal', st, None)]

    def s_ImportFrom(self, s, st, mod):
        if s.level:
            base = mod.name.split('.')
            base = base[:len(base) - s.level] if not mod.path.endswith('__init__.py') else base[:len(base) - s.level + 1]
            name = '.'.join(base + ([s.module] if s.module else []))
        else:
            name = s.module or ''
        for cand in (name, name[4:] if name.startswith('src.') else None):
            if cand and cand in self.modules:
                name = cand
                break
        if name in self.modules:
            m = self.module(name)
            for a in s.names:
                if a.name == '*':
                    st.env.update(m.env)
                elif a.name in m.env:
                    st.env[a.asname or a.name] = m.env[a.name]
                elif name + '.' + a.name in self.modules:
                    st.env[a.asname or a.name] = ModV(self.module(name + '.' + a.name))
                else:
                    self.event('undefimport', name + '.' + a.name, (), {}, st, s)
                    st.env[a.asname or a.name] = ExtV(name + '.' + a.name)
        else:
            for a in s.names:
                if name + '.' + a.name in self.modules:
                    st.env[a.asname or a.name] = ModV(self.module(name + '.' + a.name))
                else:
                    st.env[a.asname or a.name] = ExtV(name + '.' + a.name)
        return [('normal', st, None)]

    def s_FunctionDef(self, s, st, mod):
        cls = None
        closure = st.env if (self.stack and not isinstance(self.stack[-1], _ModFrame)) else None
        st.env[s.name] = FuncV(s, mod, cls, closure)
        return [('normal', st, None)]

    def s_ClassDef(self, s, st, mod):
        bases = []
        for b in s.bases:
            try:
                bases.append(self.eval(b, st, mod))
            except PathDead:
                pass
        c = ClassV(s.name, mod, s, bases)
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                c.attrs[x.name] = FuncV(x, mod, c)
                # property setter decorated functions keep the getter
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(x.value, ast.Name) and x.value.id in c.attrs:
                            c.attrs[t.id] = c.attrs[x.value.id]
                        else:
                            try:
                                c.attrs[t.id] = self.eval(x.value, st, mod)
                            except PathDead:
                                pass
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                if x.value is not None:
                    c.attrs[x.target.id] = self.eval(x.value, st, mod)
                else:
                    c.attrs.setdefault('__fields__', []).append(x.target.id)
        c.order = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
        c.dataclass = any('dataclass' in ast.unparse(d) for d in s.decorator_list)
        st.env[s.name] = c
        return [('normal', st, None)]

    def s_Return(self, s, st, mod):
        v = NONE if s.value is None else self.eval(s.value, st, mod)
        self.last_return = (s, st)
        return [('return', st, v)]

    def s_Raise(self, s, st, mod):
        if s.exc is not None:
            try:
                v = self.eval(s.exc, st, mod)
            except PathDead:
                pass
        self.event('raise', ast.unparse(s.exc) if s.exc else '', (), {}, st, s)
        return [('raise', st, None)]

    def s_Break(self, s, st, mod):
        return [('break', st, None)]

    def s_Continue(self, s, st, mod):
        return [('continue', st, None)]

    def s_Assign(self, s, st, mod):
        v = self.eval(s.value, st, mod)
        for t in s.targets:
            self.assign(t, v, st, mod, s)
        return [('normal', st, None)]

    def s_AnnAssign(self, s, st, mod):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, mod), st, mod, s)
        return [('normal', st, None)]

    def s_AugAssign(self, s, st, mod):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, st, mod, t)
            v = self.eval(s.value, st, mod)
            if self.is_tensor(st, cur):
                self.inplace_op(cur, s.op, v, st, s)
            elif isinstance(cur, Ref) and isinstance(st.heap.get(cur.loc), LC) and isinstance(s.op, ast.Add):
                from . import ext
                ext.list_extend(self, st, cur, v)
            else:
                st.env[t.id] = self.binop(s.op, cur, v, st, s)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, mod)
            cur = self.getattr(o, t.attr, st, t)
            v = self.eval(s.value, st, mod)
            if self.is_tensor(st, cur):
                self.inplace_op(cur, s.op, v, st, s)
            else:
                self.setattr(o, t.attr, self.binop(s.op, cur, v, st, s), st, s)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, mod)
            k = self.eval(t.slice, st, mod)
            v = self.eval(s.value, st, mod)
            if self.is_tensor(st, o):
                self.aug_tensor_item(o, k, s.op, v, st, s)
            else:
                cur = self.getitem(o, k, st, t)
                if self.is_tensor(st, cur):
                    self.inplace_op(cur, s.op, v, st, s)
                else:
                    self.setitem(o, k, self.binop(s.op, cur, v, st, s), st, s)
        return [('normal', st, None)]

    def inplace_op(self, ref, op, v, st, n):
        self.event('mutate', 'aug', (self.roots(st, ref),), {}, st, n)
        c = st.heap[ref.loc]
        if isinstance(c, VC) and c.key != ('flat',):
            # x[k] op= v on a view
            self.aug_key(c.parent, c.key, op, v, st, n)
            return
        r = self.binop(op, ref, v, st, n)
        self.set_tensor(st, ref, self.node(st, r))

    def aug_tensor_item(self, o, k, op, v, st, n):
        self.event('mutate', 'augitem', (self.roots(st, o),), {}, st, n)
        self.aug_key(o, self.key(k, st), op, v, st, n)

    def aug_key(self, o, key, op, v, st, n):
        old = self.node(st, o)
        vn = self.node(st, v)
        c = st.heap[o.loc]
        if isinstance(c, VC):
            # nested view: only scalar key on flat views is common
            k2 = self.compose_key(st, o, key)
            if k2 is not None:
                return self.aug_key(c.parent, k2, op, v, st, n)
            if c.key != ('flat',) and isinstance(op, (ast.Add, ast.Sub)) and not any(isinstance(x, N) and nd.is_bool(x) for x in key):
                return self.aug_key(c.parent, c.key, op, nd.sc(key, vn) if key else vn, st, n)
        if isinstance(op, (ast.Add, ast.Sub)):
            w = vn if isinstance(op, ast.Add) else nd.neg(vn)
            if len(key) == 1 and isinstance(key[0], N) and nd.is_bool(key[0]):
                self.set_tensor(st, o, nd.ite(key[0], nd.add(old, unmask(w, key[0])), old))
            else:
                self.set_tensor(st, o, nd.add(old, nd.sc(key, w)))
        else:
            cur = nd.idx(old, key)
            r = self.binop(op, cur, vn, st, n)
            self.set_tensor(st, o, self.setkey(old, key, self.node(st, r)))

    def compose_key(self, st, o, key):
        c = st.heap[o.loc]
        if c.key == ('flat',) and len(key) == 1 and isinstance(key[0], N):
            d = nd.decode_flat(key[0]) if nd.GRID_DIMS[0] else None
            return d
        return None

    def s_If(self, s, st, mod):
        c = self.truth(st, self.eval(s.test, st, mod))
        return self.branch(c, lambda x: self.exec_block(s.body, x, mod), lambda x: self.exec_block(s.orelse, x, mod), st)

    def branch(self, c, f1, f2, st):
        c = self.decide(c, st)
        if c is TRUE:
            return f1(st)
        if c is FALSE:
            return f2(st)
        s1, s2 = st.fork(), st.fork()
        s1.pc = s1.pc | lits(c)
        s2.pc = s2.pc | lits(nd.notn(c))
        o1 = f1(s1)
        o2 = f2(s2)
        outs = [o for o in o1 if o[0] != 'normal'] + [o for o in o2 if o[0] != 'normal']
        n1 = [o[1] for o in o1 if o[0] == 'normal']
        n2 = [o[1] for o in o2 if o[0] == 'normal']
        n1 = n1[0] if n1 else None
        n2 = n2[0] if n2 else None
        if n1 is None and n2 is None:
            return outs
        m = self.merge(c, n1, n2)
        outs.append(('normal', m, None))
        return outs

    def s_With(self, s, st, mod):
        for it in s.items:
            v = self.eval(it.context_expr, st, mod)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, mod, s)
        return self.exec_block(s.body, st, mod)

    def s_Try(self, s, st, mod):
        s0 = st.fork()
        ev0 = len(self.events)
        outs = self.exec_block(s.body, st, mod)
        res = []
        normal = None
        raised = []
        for o in outs:
            if o[0] == 'raise':
                raised.append(o)
            elif o[0] == 'normal':
                normal = o[1]
            else:
                res.append(o)
        if normal is not None and s.orelse:
            for o in self.exec_block(s.orelse, normal, mod):
                if o[0] == 'normal':
                    normal = o[1]
                else:
                    res.append(o)
                    normal = None
        # handler
        hs = None
        hc = None
        if s.handlers:
            if raised or normal is None and not res:
                r = raised[0][1] if raised else s0
                for x in raised[1:]:
                    r = self.merge(self.cond_of(x[1].pc, s0.pc), x[1], r)
                hs = r.fork()
                hc = nd.orn(*[self.cond_of(x[1].pc, s0.pc) for x in raised]) if raised else TRUE
                if hc is TRUE and (normal is not None):
                    hc = sym('exc', s.lineno)
                raised = []
            elif self.implicit_exc and self.may_raise(s.body):
                hs = s0.fork()
                hc = mk('exc', ast.dump(ast.Module(s.body, [])))
            if hs is not None:
                houts = []
                for h in s.handlers[:1]:
                    if h.name:
                        hs.env[h.name] = sym('exception')
                    hs.pc = hs.pc | lits(hc) if hc is not TRUE else hs.pc
                    houts = self.exec_block(h.body, hs, mod)
                for o in houts:
                    if o[0] == 'normal':
                        normal = self.merge(hc, o[1], normal) if normal is not None else o[1]
                    else:
                        res.append(o)
        res.extend(raised)
        if normal is not None:
            res.append(('normal', normal, None))
        if s.finalbody:
            out2 = []
            for k, x, v in res:
                for o in self.exec_block(s.finalbody, x, mod):
                    if o[0] == 'normal':
                        out2.append((k, o[1], v))
                    else:
                        out2.append(o)
            res = out2
        return res

    def may_raise(self, body):
        return any(isinstance(x, (ast.Call, ast.Subscript)) for b in body for x in ast.walk(b))

    # ------------------------------------------------------------ loops
    def s_For(self, s, st, mod):
        it = self.eval(s.iter, st, mod)
        return self.for_loop(it, lambda v, x: self.assign(s.target, v, x, mod, s),
                             lambda x: self.exec_block(s.body, x, mod),
                             (lambda x: self.exec_block(s.orelse, x, mod)) if s.orelse else None, st, s)

    def concrete_items(self, it, st):
        """list of values when iterable has a statically known length, else None"""
        if isinstance(it, tuple):
            return list(it)
        if isinstance(it, RangeV):
            a, b, c = (nd.numval(x) for x in (it.start, it.stop, it.step))
            if a is not None and b is not None and c is not None and c != 0:
                r = range(int(a), int(b), int(c))
                if len(r) <= 64:
                    return [num(i) for i in r]
            return None
        if isinstance(it, Ref):
            c = st.heap.get(it.loc)
            if isinstance(c, LC) and c.elem is None and c.base is None and all(g is TRUE for g, _ in c.items) and len(c.items) <= 64:
                return [x for _, x in c.items]
            if isinstance(c, DC) and c.base is None and len(c.entries) <= 64:
                return list(c.entries)
        if isinstance(it, N):
            if it.op == 'tuple' or it.op == 'list':
                return list(it.args)
            if it.op == 'str' and len(it.args[0]) <= 64:
                return [string(x) for x in it.args[0]]
        if isinstance(it, (N, Ref)):
            if isinstance(it, Ref) and not self.is_tensor(st, it):
                return None
            return self.hinted(it if isinstance(it, N) else self.node(st, it))
        return None

    def hinted(self, n):
        """elements of an expression over one-dimensional values of known length"""
        if n in self.shape_hint:
            return list(self.shape_hint[n])
        if n.op not in nd.ELEMWISE or not self.shape_hint:
            return None
        used, stack, seen = [], [n], set()
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.shape_hint:
                used.append(x)
            elif x.op in nd.ELEMWISE:
                if x.op == 'poly':
                    stack += [a for m, _ in x.args for a, _ in m]
                else:
                    stack += [a for a in x.args if isinstance(a, N)]
            elif nd.shape_of(x) != 'scalar' and x.op not in ('num', 'str', 'bool', 'none'):
                return None
        if not used or len({len(self.shape_hint[u]) for u in used}) != 1:
            return None
        return [nd.subst(n, {u: self.shape_hint[u][i] for u in used}) for i in range(len(self.shape_hint[used[0]]))]

    def for_loop(self, it, bind, body, orelse, st, n):
        if isinstance(it, UnionV):
            c = self.decide(it.cond, st)
            if c is TRUE:
                it = it.a
            elif c is FALSE:
                it = it.b
        items = self.concrete_items(it, st)
        if items is not None:
            return self.unrolled(items, bind, body, orelse, st)
        guarded = None
        if isinstance(it, Ref) and isinstance(st.heap.get(it.loc), LC):
            c = st.heap[it.loc]
            if c.elem is None and c.base is None and len(c.items) <= 32:
                guarded = c.items
        if guarded is not None:
            def gbody(g_x, x):
                g, v = g_x

                def run(y):
                    bind(v, y)
                    return body(y)
                return self.branch(g, run, lambda y: [('normal', y, None)], x)
            cur = [g for g in guarded]
            return self.unrolled(cur, lambda v, x: None, None, orelse, st, stepper=gbody)
        base, elem = self.iter_elem(it, st, n)
        return self.abstract_loop(base, elem, bind, body, orelse, st, n)

    def unrolled(self, items, bind, body, orelse, st, stepper=None):
        outs = []
        breaks = []
        cur = st
        pc0 = st.pc
        for v in items:
            if stepper:
                os_ = stepper(v, cur)
            else:
                bind(v, cur)
                os_ = body(cur)
            nxt = None
            pend = []
            for o in os_:
                if o[0] in ('normal', 'continue'):
                    pend.append(o[1])
                elif o[0] == 'break':
                    breaks.append(o[1])
                else:
                    outs.append(o)
            nxt = self.join_seq(pend, pc0)
            cur = nxt
            if cur is None:
                break
        if cur is not None and orelse:
            for o in orelse(cur):
                if o[0] == 'normal':
                    cur = o[1]
                else:
                    outs.append(o)
                    cur = None
        j = self.join_seq(breaks + ([cur] if cur is not None else []), pc0)
        if j is not None:
            outs.append(('normal', j, None))
        return outs

    def join_seq(self, states, pc0):
        """join several disjoint states, discriminated by their path conditions"""
        if not states:
            return None
        r = states[-1]
        for s in reversed(states[:-1]):
            c = self.cond_of(s.pc, pc0)
            # drop literals shared with the rest
            common = s.pc & r.pc
            c2 = nd.andn(*[x for x in s.pc if x not in common])
            if c2 is TRUE:
                c2 = c
            if c2 is TRUE:
                c2 = sym('some', len(self.events))
            r = self.merge(c2, s, r)
        return r

    def iter_elem(self, it, st, n):
        """(base node, element value) of an abstract iterable"""
        if isinstance(it, IterV):
            return it.base, it.elem
        if isinstance(it, RangeV):
            b = mk('range', it.start, it.stop, it.step)
            e = mk('iv', b)
            nd.SHAPES[e] = 'scalar'
            return b, e
        if isinstance(it, Ref):
            c = st.heap.get(it.loc)
            if isinstance(c, LC):
                b = self.node(st, it)
                if c.elem is not None:
                    return b, c.elem
                return b, mk('elem', b)
            b = self.node(st, it)
            return b, mk('elem', b)
        b = self.node(st, it)
        return b, mk('elem', b)

    def abstract_loop(self, base, elem, bind, body, orelse, st, n, cond=None):
        k = self.loopctr.get(base, 0)
        lid = mk('loop', base, num(k))
        self.loopctr[base] = k + 1
        changed = {}       # ('e',name)/('h',loc,sub) -> True
        prev_events = len(self.events)
        back = None
        marks = {l: len(x) for l, x in self._appended.items()}
        for rnd in range(6):
            del self.events[prev_events:]
            for l, x in self._appended.items():
                del x[marks.get(l, 0):]
            sb = st.fork()
            self.havoc(sb, changed, lid, st)
            entry = sb.fork()
            outs = []
            cexit = None
            if cond is not None:
                c = cond(sb)
                cexit = nd.notn(c)
                if c is FALSE:
                    return [('normal', sb, None)]
                if c is not TRUE:
                    sb.pc = sb.pc | lits(c)
            if bind is not None:
                bind(elem, sb)
            self.loops.append(lid)
            try:
                outs = body(sb)
            except PathDead:
                outs = [('raise', sb, None)]
            finally:
                self.loops.pop()
            pend = [o[1] for o in outs if o[0] in ('normal', 'continue')]
            self.loop_back[lid] = nd.notn(nd.orn(*[self.cond_of(o[1].pc, entry.pc) for o in outs if o[0] in ('break', 'return')])) \
                if pend else FALSE
            back = self.join_seq(pend, entry.pc)
            new = dict(changed)
            if back is not None:
                self.diff(entry, back, new, st)
            if set(new) == set(changed):
                break
            changed = new
        # exits
        res = [o for o in outs if o[0] in ('return', 'raise')]
        brk = [o[1] for o in outs if o[0] == 'break']
        ex = st.fork()
        if back is not None:
            self.note_back(st, entry, back, lid)
            self.summarise(ex, entry, back, changed, lid, st, base, marks)
        elif cond is None and isinstance(base, N) and base.op == 'range' and base.args[2] is ONE and \
                self.decide(nd.gt0(nd.sub(base.args[1], base.args[0])), st) is TRUE:
            ex = None       # a non-empty loop whose body never comes back
        if cond is not None and cexit is not None:
            c2 = cond(ex.fork())
            if nd.notn(c2) is not FALSE and c2 is not TRUE:
                ex.pc = ex.pc | lits(nd.notn(c2))
        if cond is not None and self.decide(cexit, st) is FALSE and cexit is FALSE:
            ex = None       # while True
        bc = None
        if brk:
            bstate = self.join_seq(brk, entry.pc)
            bcond = nd.orn(*[self.cond_of(b.pc, entry.pc) for b in brk])
            bc = mk('exists', lid, bcond)
            if ex is not None:
                ex.pc = ex.pc | {nd.notn(bc)}
            else:
                bc = TRUE
        cur = ex
        if ex is not None and orelse:
            cur = None
            for o in orelse(ex):
                if o[0] == 'normal':
                    cur = o[1]
                else:
                    res.append(o)
        if brk:
            bstate.pc = (bstate.pc & st.pc) | (bstate.pc - st.pc) | ({bc} if bc is not TRUE else set())
            if cur is None:
                cur = bstate
            else:
                cur = self.merge(bc, bstate, cur)
        if cur is not None:
            res.append(('normal', cur, None))
        return res

    def havoc(self, sb, changed, lid, st):
        for key in changed:
            if key[0] == 'e':
                v = sb.env.get(key[1], UNDEF)
                nm = mk('mu', lid, key[1])
                if v is UNDEF:
                    continue
                self.mu_shape(nm, st, v)
                if self.is_tensor(sb, v):
                    sb.env[key[1]] = self.tensor(sb, nm, self.shape(sb, v))
                    self.alias(sb.env[key[1]], v)
                elif isinstance(v, N):
                    sb.env[key[1]] = nm
                else:
                    sb.env[key[1]] = nm if not isinstance(v, (tuple,)) else nm
            else:
                self.havoc_cell(sb, key, lid, st)

    def mu_shape(self, nm, st, v):
        n0 = self.node(st, v)
        s = nd.shape_of(n0) if isinstance(n0, N) else None
        if n0 is ZERO and self.is_tensor(st, v):
            s = 'grid' if self.shape(st, v) == 'grid' else None
        if isinstance(v, N) and n0.op in ('num', 'poly', 'bool'):
            s = 'scalar'
        if s is not None:
            nd.SHAPES[nm] = s

    def havoc_cell(self, sb, key, lid, st):
        _, loc, sub = key
        c = sb.heap.get(loc)
        if c is None:
            return
        if isinstance(c, TC):
            nm = mk('mu', lid, 'h%d' % loc)
            if c.shape == 'grid':
                nd.SHAPES[nm] = 'grid'
            else:
                self.mu_shape(nm, st, Ref(loc))
            sb.heap[loc] = TC(nm, c.shape)
        elif isinstance(c, OC):
            a = dict(c.attrs)
            nm = mk('mu', lid, 'h%d.%s' % (loc, sub))
            v = a.get(sub, UNDEF)
            if v is not UNDEF and self.is_tensor(sb, v):
                self.mu_shape(nm, st, v)
                a[sub] = self.tensor(sb, nm, self.shape(sb, v))
                self.alias(a[sub], v)
            else:
                if isinstance(v, N):
                    self.mu_shape(nm, st, v)
                a[sub] = nm
            sb.heap[loc] = OC(c.cls, a, c.base)
        elif isinstance(c, DC):
            e = dict(c.entries)
            nm = mk('mu', lid, 'h%d[%s]' % (loc, nd.show(sub)))
            v = e.get(sub)
            if v is not None and self.is_tensor(sb, v):
                e[sub] = self.tensor(sb, nm)
                self.alias(e[sub], v)
            else:
                if isinstance(v, N):
                    self.mu_shape(nm, st, v)
                e[sub] = nm
            sb.heap[loc] = DC(e, c.base)
        elif isinstance(c, LC):
            nm = mk('mu', lid, 'h%d' % loc)
            sb.heap[loc] = LC((), None, nm)

    def valeq(self, a, b, s1, s2):
        if a is b or (isinstance(a, Ref) and a == b):
            return True
        if a is UNDEF or b is UNDEF:
            return False
        if isinstance(a, (ExtV, ModV, FuncV, ClassV)) and type(a) is type(b):
            return True
        try:
            return self.node(s1, a) is self.node(s2, b) and self.is_tensor(s1, a) == self.is_tensor(s2, b)
        except Exception:
            return False

    def diff(self, s1, s2, out, st):
        for k, v in s1.env.items():
            v2 = s2.env.get(k, UNDEF)
            if not self.valeq(v, v2, s1, s2):
                out[('e', k)] = True
        for l, c1 in s1.heap.items():
            c2 = s2.heap.get(l)
            if c1 is c2 or c2 is None:
                continue
            if isinstance(c1, TC) and isinstance(c2, TC):
                if c1.node is not c2.node:
                    out[('h', l, None)] = True
            elif isinstance(c1, OC):
                for a in set(c1.attrs) | set(c2.attrs):
                    if a not in c1.attrs and isinstance(c2.attrs.get(a), FuncV):
                        continue        # a function defined on first use: defining it again changes nothing
                    if not self.valeq(c1.attrs.get(a, UNDEF), c2.attrs.get(a, UNDEF), s1, s2):
                        out[('h', l, a)] = True
            elif isinstance(c1, DC):
                for a in set(c1.entries) | set(c2.entries):
                    x, y = c1.entries.get(a, UNDEF), c2.entries.get(a, UNDEF)
                    if not self.valeq(x, y, s1, s2):
                        out[('h', l, a)] = True
            elif isinstance(c1, LC):
                if c1.items != c2.items or c1.base is not c2.base or c1.elem is not c2.elem:
                    out[('h', l, None)] = True

    def loopval(self, init, mu, back, lid, base, shape=None):
        """node for a loop-carried value after the loop"""
        self.loop_table.setdefault(lid, {})[mu] = (init, back)
        if back is mu:
            return init
        if nd._arith(back) and nd._arith(init):
            d = nd.sub(back, mu)
            if not nd.contains(d, lambda x: x.op == 'mu' and x.args[0] is lid):
                return nd.add(init, lsum(lid, d))
        v = vectorise(init, mu, back, base, shape)
        if v is not None:
            return v
        return mk('loopval', lid, init, back, mu)

    def note_back(self, st, entry, back, lid):
        """what a name or attribute is bound to at the end of the body it is bound to at the start of the next round"""
        pairs = [(('e', k), x, back.env.get(k)) for k, x in entry.env.items()]
        for l, c in entry.heap.items():
            d = back.heap.get(l)
            if c is d:
                continue
            if isinstance(c, OC) and isinstance(d, OC):
                pairs += [(('h', l, a), x, d.attrs.get(a)) for a, x in c.attrs.items()]
            elif isinstance(c, DC) and isinstance(d, DC):
                pairs += [(('h', l, a), x, d.entries.get(a)) for a, x in c.entries.items()]
        for key, x, y in pairs:
            if isinstance(x, Ref) and y != x and self.is_tensor(entry, x):
                for z in ((y.a, y.b) if isinstance(y, UnionV) else (y,)):
                    if isinstance(z, Ref) and z.loc != x.loc:
                        self.alias(x, z)
                        self.backedges.append((lid, key, x, z, z.loc in st.heap, back.pc))

    def summarise(self, ex, entry, back, changed, lid, st, base, marks=None):
        for key in changed:
            if key[0] == 'e':
                k = key[1]
                b = back.env.get(k, UNDEF)
                i = st.env.get(k, UNDEF)
                if i is UNDEF:
                    continue
                mu = entry.env[k]
                bn, inn, mn = self.node(back, b), self.node(st, i), self.node(entry, mu)
                r = self.loopval(inn, mn, bn, lid, base)
                if self.is_tensor(back, b) or self.is_tensor(st, i):
                    rr = self.tensor(ex, r, self.shape(st, i) or self.shape(back, b))
                    # a rebound name may alias what the body bound it to
                    self.alias(rr, b, i)
                    ex.env[k] = rr
                else:
                    if isinstance(b, (UnionV,)) or isinstance(i, (UnionV,)):
                        ex.env[k] = i
                    else:
                        ex.env[k] = r
                        if inn.op in ('num', 'poly', 'bool') and isinstance(i, N):
                            if r.op in ('loopval', 'sum'):
                                nd.SHAPES[r] = 'scalar'
            else:
                _, loc, sub = key
                c0, ce, cb = st.heap.get(loc), entry.heap.get(loc), back.heap.get(loc)
                if isinstance(c0, TC):
                    r = self.loopval(c0.node, ce.node, cb.node, lid, base, c0.shape)
                    if r.op == 'loopval' and c0.shape == 'grid':
                        nd.SHAPES[r] = 'grid'
                    ex.heap[loc] = TC(r, c0.shape)
                elif isinstance(c0, OC):
                    a = dict(ex.heap[loc].attrs)
                    x0, xe, xb = c0.attrs.get(sub, UNDEF), ce.attrs.get(sub, UNDEF), cb.attrs.get(sub, UNDEF)
                    a[sub] = self._sumval(x0, xe, xb, st, entry, back, lid, base, ex, c0.base, sub)
                    ex.heap[loc] = OC(c0.cls, a, c0.base)
                elif isinstance(c0, DC):
                    e = dict(ex.heap[loc].entries)
                    x0, xe, xb = c0.entries.get(sub, UNDEF), ce.entries.get(sub, UNDEF), cb.entries.get(sub, UNDEF)
                    e[sub] = self._sumval(x0, xe, xb, st, entry, back, lid, base, ex, c0.base, sub)
                    ex.heap[loc] = DC(e, c0.base)
                elif isinstance(c0, LC):
                    # list built in a loop: abstract element
                    if cb.base is None or cb.base is not ce.base:
                        pass
                    app = self._appended.get(loc, [])[(marks or {}).get(loc, 0):]
                    b0 = c0.base if c0.base is not None else mk('list', *[self.node(st, x) for _, x in c0.items])
                    els = []
                    for v, pc, loops in app:
                        g = self.cond_of(pc, entry.pc)
                        inner = loops[len(self.loops) + 1:]
                        els.append((self.node(back, v), g, mk('tuple', *inner) if inner else NONE))
                    if len(els) == 1 and els[0][1] is TRUE and els[0][2] is NONE:
                        args = [els[0][0]]
                    elif len(els) == 1 and els[0][2] is NONE:
                        args = [els[0][0], els[0][1]]
                    else:
                        args = [mk('several', *[mk('tuple', *x) for x in els]) if els else NONE]
                    one = app[-1][0] if app and len({x[0] for x in els}) == 1 and not isinstance(app[-1][0], Ref) else None
                    ex.heap[loc] = LC((), one, mk('listloop', lid, b0, *args))
        # locations created inside the loop body stay visible (e.g. abstract elements)
        for l, c in back.heap.items():
            if l not in ex.heap:
                ex.heap[l] = c

    def _sumval(self, x0, xe, xb, st, entry, back, lid, base, ex, obase, sub):
        if x0 is UNDEF:
            if obase is not None:
                x0 = mk('attr', obase, sub) if isinstance(sub, str) else mk('get', obase, sub, NONE)
            else:
                return xb
        if isinstance(x0, N) and isinstance(xe, N) and isinstance(xb, N):
            r = self.loopval(x0, xe, xb, lid, base)
            if r.op in ('loopval', 'sum') and x0.op in ('num', 'poly'):
                nd.SHAPES[r] = 'scalar'
            return r
        if self.is_tensor(st, x0) or self.is_tensor(back, xb):
            r = self.loopval(self.node(st, x0), self.node(entry, xe), self.node(back, xb), lid, base)
            return self.tensor(ex, r, self.shape(st, x0))
        i, b, m = self.node(st, x0), self.node(back, xb), self.node(entry, xe)
        self.loop_table.setdefault(lid, {})[m] = (i, b)
        return mk('loopval', lid, i, b, m)

    def s_While(self, s, st, mod):
        base = mk('while', string(ast.dump(s.test)))
        return self.abstract_loop(base, None, None, lambda x: self.exec_block(s.body, x, mod),
                                  (lambda x: self.exec_block(s.orelse, x, mod)) if s.orelse else None, st, s,
                                  cond=lambda x: self.truth(x, self.eval(s.test, x, mod)))

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, mod, n):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, mod, n)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, mod)
            self.setattr(o, t.attr, v, st, n)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, mod)
            k = self.eval(t.slice, st, mod)
            self.setitem(o, k, v, st, n)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, mod, n)

    def unpack(self, elts, v, st, mod, n):
        k = len(elts)
        if isinstance(v, UnionV):
            c = self.decide(v.cond, st)
            if c is TRUE:
                v = v.a
            elif c is FALSE:
                v = v.b
        if isinstance(v, Ref) and isinstance(st.heap.get(v.loc), LC):
            c = st.heap[v.loc]
            if c.base is None and c.elem is None and len(c.items) == k:
                v = tuple(x for _, x in c.items)
        if isinstance(v, N) and v.op in ('tuple', 'list') and len(v.args) == k:
            v = v.args
        if isinstance(v, tuple) and len(v) == k and not any(isinstance(e, ast.Starred) for e in elts):
            for e, x in zip(elts, v):
                self.assign(e, x, st, mod, n)
            return
        b = self.node(st, v)
        if b in self.shape_hint and len(self.shape_hint[b]) == k:
            for e, x in zip(elts, self.shape_hint[b]):
                self.assign(e, x, st, mod, n)
            return
        if b.op in ('tuple', 'list') and len(b.args) == k:
            for e, x in zip(elts, b.args):
                self.assign(e, x, st, mod, n)
            return
        for i, e in enumerate(elts):
            self.assign(e, mk('item', b, num(i)), st, mod, n)

    def setattr(self, o, a, v, st, n):
        if isinstance(o, UnionV):
            c = self.decide(o.cond, st)
            if c is TRUE:
                return self.setattr(o.a, a, v, st, n)
            if c is FALSE:
                return self.setattr(o.b, a, v, st, n)
            s1, s2 = st.fork(), st.fork()
            self.setattr(o.a, a, v, s1, n)
            self.setattr(o.b, a, v, s2, n)
            m = self.merge(c, s1, s2)
            st.heap, st.env = m.heap, m.env
            return
        if isinstance(o, Ref):
            c = st.heap.get(o.loc)
            if isinstance(c, OC):
                attrs = dict(c.attrs)
                attrs[a] = v
                st.heap[o.loc] = OC(c.cls, attrs, c.base)
                self.event('setattr', (c.cls.name if c.cls else '?', a), (o, v), {}, st, n, self.node(st, v))
                return
        if isinstance(o, (ClassV,)):
            o.attrs[a] = v
            return
        self.event('setattr?', a, (o, v), {}, st, n)

    def setitem(self, o, k, v, st, n):
        if isinstance(o, UnionV):
            c = self.decide(o.cond, st)
            if c is TRUE:
                return self.setitem(o.a, k, v, st, n)
            if c is FALSE:
                return self.setitem(o.b, k, v, st, n)
            s1, s2 = st.fork(), st.fork()
            self.setitem(o.a, k, v, s1, n)
            self.setitem(o.b, k, v, s2, n)
            m = self.merge(c, s1, s2)
            st.heap, st.env = m.heap, m.env
            return
        if isinstance(o, Ref):
            c = st.heap.get(o.loc)
            if isinstance(c, DC):
                e = dict(c.entries)
                kn = self.node(st, k)
                e[kn] = v
                st.heap[o.loc] = DC(e, c.base)
                self.event('setitem', kn, (o, v), {}, st, n, self.node(st, v))
                return
            if isinstance(c, LC):
                kn = self.node(st, k)
                i = nd.numval(kn)
                if i is not None and c.base is None and c.elem is None and -len(c.items) <= i < len(c.items):
                    items = list(c.items)
                    items[int(i)] = (TRUE, v)
                    st.heap[o.loc] = LC(items)
                else:
                    self.event('setitem', kn, (o, v), {}, st, n, self.node(st, v))
                    st.heap[o.loc] = LC((), None, mk('lupd', self.node(st, o), kn, self.node(st, v)))
                return
            if isinstance(c, (TC, VC)):
                self.event('mutate', 'setitem', (self.roots(st, o),), {}, st, n)
                key = self.key(k, st)
                vn = self.node(st, v)
                if isinstance(c, VC):
                    k2 = self.compose_key(st, o, key)
                    if k2 is not None:
                        p = c.parent
                        self.set_tensor(st, p, self.setkey(self.node(st, p), k2, vn))
                        return
                old = self.node(st, o)
                if key and all(x == ('sl', None, None) for x in key):
                    key = ()
                if not key:
                    self.set_tensor(st, o, vn)
                else:
                    self.set_tensor(st, o, self.setkey(old, key, vn))
                return
        self.event('setitem?', self.node(st, k), (o, v), {}, st, n, self.node(st, v))

    # ------------------------------------------------------------ keys
    def key(self, k, st):
        """canonical index key"""
        if isinstance(k, Ref) and isinstance(st.heap.get(k.loc), LC):
            c = st.heap[k.loc]
            if c.base is None and c.elem is None and all(g is TRUE for g, _ in c.items) and \
                    any(isinstance(x, (SliceV, EllipsisV)) for _, x in c.items):
                k = tuple(x for _, x in c.items)
        if isinstance(k, N) and k.op == 'tuple':
            k = k.args
        comps = k if isinstance(k, tuple) else (k,)
        out = []
        for c in comps:
            if isinstance(c, SliceV):
                a, b, s = (self.node(st, x) for x in (c.start, c.stop, c.step))
                a = None if (a is NONE or a is ZERO) else a
                b = None if b is NONE else b
                if s is not NONE and s is not ONE:
                    out.append(('sl', a, b, s))
                else:
                    # 0:dim-1 -> :-1
                    out.append(('sl', a, self.norm_stop(b, len(out))))
            elif isinstance(c, EllipsisV):
                if len(comps) <= 3:
                    for _ in range(3 - len(comps) + 1):
                        out.append(('sl', None, None))
                else:
                    out.append(('ell',))
            elif isinstance(c, N) and c.op == 'slice':
                a, b, s = c.args
                out.append(('sl', None if a in (NONE, ZERO) else a, self.norm_stop(None if b is NONE else b, len(out))))
            else:
                out.append(self.node(st, c))
        while out and out[-1] == ('sl', None, None):
            out.pop()
        return tuple(out)

    def norm_stop(self, b, axis):
        if b is None or nd.GRID_DIMS[0] is None:
            return b
        dims = nd.GRID_DIMS[0]
        if axis < 3:
            d = nd.sub(b, dims[axis])
            if d is ZERO:
                return None
            if d.op == 'num' and d.args[0] < 0:
                return d
        return b

    # ------------------------------------------------------------ expressions
    def eval(self, e, st, mod):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.opaque.append(('expr ' + type(e).__name__,) + self.where(e))
            return sym('opaque', type(e).__name__, ast.dump(e))
        v = m(e, st, mod)
        if isinstance(v, N):
            if v.id not in self.prov and hasattr(e, 'lineno'):
                self.prov[v.id] = self.where(e)
        elif isinstance(v, Ref):
            c = st.heap.get(v.loc)
            if isinstance(c, TC) and c.node.id not in self.prov and hasattr(e, 'lineno'):
                self.prov[c.node.id] = self.where(e)
        return v

    def e_Constant(self, e, st, mod):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return string(v)
        if v is Ellipsis:
            return EllipsisV()
        return mk('const', repr(v))

    def load_name(self, name, st, mod, e):
        if name in st.env and st.env[name] is not UNDEF:
            return st.env[name]
        f = self.stack[-1] if self.stack else None
        c = getattr(f, 'closure', None)
        if c is not None and name in c:
            return c[name]
        if name in mod.env:
            return mod.env[name]
        if name in BUILTINS or name in EXCS:
            return ExtV('builtins.' + name)
        if name == '__name__':
            return string(mod.name)
        self.event('undef', name, (), {}, st, e)
        return sym('undef', name)

    def e_Name(self, e, st, mod):
        return self.load_name(e.id, st, mod, e)

    def e_Tuple(self, e, st, mod):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, mod)
                items = self.concrete_items(v, st)
                if items is None:
                    b = self.node(st, v)
                    if b in self.shape_hint:
                        items = list(self.shape_hint[b])
                if items is None:
                    out.append(mk('star', self.node(st, v)))
                else:
                    out.extend(items)
            else:
                out.append(self.eval(x, st, mod))
        return tuple(out)

    def e_List(self, e, st, mod):
        return self.new(st, LC([(TRUE, x) for x in self.e_Tuple(e, st, mod)]))

    def e_Set(self, e, st, mod):
        return self.e_Tuple(e, st, mod)

    def e_Dict(self, e, st, mod):
        d = {}
        base = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v, st, mod)
                if isinstance(x, Ref) and isinstance(st.heap.get(x.loc), DC):
                    c = st.heap[x.loc]
                    d.update(c.entries)
                    base = c.base or base
                else:
                    base = self.node(st, x)
            else:
                kk = self.eval(k, st, mod)
                d[self.node(st, kk)] = self.eval(v, st, mod)
        return self.new(st, DC(d, base))

    def e_JoinedStr(self, e, st, mod):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(string(x.value))
            else:
                try:
                    v = self.node(st, self.eval(x.value, st, mod))
                except PathDead:
                    v = sym('dead')
                if x.format_spec is not None:
                    fs = ''.join(y.value for y in x.format_spec.values if isinstance(y, ast.Constant))
                    v = mk('fmt', v, fs)
                parts.append(v)
        if all(p.op == 'str' for p in parts):
            return string(''.join(p.args[0] for p in parts))
        return mk('fstr', *parts)

    def e_FormattedValue(self, e, st, mod):
        return self.eval(e.value, st, mod)

    def e_Starred(self, e, st, mod):
        return self.eval(e.value, st, mod)

    def e_NamedExpr(self, e, st, mod):
        v = self.eval(e.value, st, mod)
        st.env[e.target.id] = v
        return v

    def e_Lambda(self, e, st, mod):
        return FuncV(e, mod, None, dict(st.env))

    def e_Slice(self, e, st, mod):
        f = lambda x: NONE if x is None else self.node(st, self.eval(x, st, mod))
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_IfExp(self, e, st, mod):
        c = self.truth(st, self.eval(e.test, st, mod))
        c = self.decide(c, st)
        if c is TRUE:
            return self.eval(e.body, st, mod)
        if c is FALSE:
            return self.eval(e.orelse, st, mod)
        s1, s2 = st.fork(), st.fork()
        s1.pc = s1.pc | lits(c)
        s2.pc = s2.pc | lits(nd.notn(c))
        d1 = d2 = False
        try:
            v1 = self.eval(e.body, s1, mod)
        except PathDead:
            d1 = True
        try:
            v2 = self.eval(e.orelse, s2, mod)
        except PathDead:
            d2 = True
        if d1 and d2:
            raise PathDead()
        if d1 or d2:
            s = s2 if d1 else s1
            st.heap, st.env, st.pc = s.heap, s.env, s.pc
            return v2 if d1 else v1
        return self.join_values(c, s1, v1, s2, v2, st)

    def join_values(self, c, s1, v1, s2, v2, st):
        s1.env = dict(s1.env)
        s2.env = dict(s2.env)
        s1.env['$v'] = v1
        s2.env['$v'] = v2
        m = self.merge(c, s1, s2)
        v = m.env.pop('$v')
        st.heap, st.env, st.pc = m.heap, m.env, m.pc
        return v

    def e_BoolOp(self, e, st, mod):
        v = self.eval(e.values[0], st, mod)
        for x in e.values[1:]:
            c = self.truth(st, v)
            c = self.decide(c, st)
            isand = isinstance(e.op, ast.And)
            if c is TRUE:
                if isand:
                    v = self.eval(x, st, mod)
                    continue
                return v
            if c is FALSE:
                if isand:
                    return v
                v = self.eval(x, st, mod)
                continue
            s1, s2 = st.fork(), st.fork()
            s1.pc = s1.pc | lits(c)
            s2.pc = s2.pc | lits(nd.notn(c))
            live = s1 if isand else s2
            try:
                w = self.eval(x, live, mod)
            except PathDead:
                continue
            if isinstance(v, N) and nd.is_bool(v) and isinstance(w, N) and nd.is_bool(w):
                r = nd.andn(v, w) if isand else nd.orn(v, w)
                self.join_values(c, s1, r, s2, r, st)
                v = r
            else:
                cw = None
                if isinstance(w, (Ref, tuple)) and not self.is_tensor(live, w) or isinstance(v, Ref):
                    if isand:
                        v = self.join_values(c, s1, w, s2, v, st)
                    else:
                        v = self.join_values(c, s1, v, s2, w, st)
                else:
                    if isand:
                        v = self.join_values(c, s1, w, s2, v, st)
                    else:
                        v = self.join_values(c, s1, v, s2, w, st)
        return v

    def e_UnaryOp(self, e, st, mod):
        v = self.eval(e.operand, st, mod)
        if isinstance(e.op, ast.Not):
            return nd.notn(self.truth(st, v))
        n = self.node(st, v)
        if isinstance(e.op, ast.USub):
            r = nd.neg(n)
        elif isinstance(e.op, ast.UAdd):
            r = n
        else:
            r = nd.notn(n) if nd.is_bool(n) else mk('fn', 'invert', n)
        return self.like(v, r, st)

    def like(self, v, r, st):
        if self.is_tensor(st, v):
            return self.tensor(st, r, self.shape(st, v))
        return r

    def e_BinOp(self, e, st, mod):
        a = self.eval(e.left, st, mod)
        b = self.eval(e.right, st, mod)
        return self.binop(e.op, a, b, st, e)

    def binop(self, op, a, b, st, e):
        if isinstance(a, UnionV) or isinstance(b, UnionV):
            u = a if isinstance(a, UnionV) else b
            c = self.decide(u.cond, st)
            if c is TRUE or c is FALSE:
                x = u.a if c is TRUE else u.b
                return self.binop(op, x if u is a else a, x if (u is b and u is not a) else b, st, e)
        # list / tuple ops
        la = self.seq(a, st)
        lb = self.seq(b, st)
        if isinstance(op, ast.Add) and la is not None and lb is not None:
            r = la + lb
            return tuple(r) if isinstance(a, tuple) else self.new(st, LC([(TRUE, x) for x in r]))
        if isinstance(op, ast.Mult):
            for s, k, o in ((la, b, a), (lb, a, b)):
                if s is not None and isinstance(k, N) and k.op == 'num':
                    r = s * int(k.args[0])
                    return tuple(r) if isinstance(o, tuple) else self.new(st, LC([(TRUE, x) for x in r]))
        na, nb = self.node(st, a), self.node(st, b)
        t = type(op)
        if t is ast.Add and any(isinstance(x, Ref) and isinstance(st.heap.get(x.loc), LC) for x in (a, b)):
            return self.new(st, LC((), None, mk('extended', na, nb)))
        if t is ast.Add and (na.op in ('str', 'fstr') or nb.op in ('str', 'fstr')):
            if na.op == 'str' and nb.op == 'str':
                return string(na.args[0] + nb.args[0])
            pa = na.args if na.op == 'fstr' else (na,)
            pb = nb.args if nb.op == 'fstr' else (nb,)
            return mk('fstr', *(pa + pb))
        if t is ast.Mod and na.op in ('str', 'fstr'):
            return mk('fstr', na, nb)
        if t in (ast.Add, ast.Sub, ast.Mult, ast.Div):
            if nd.is_bool(na):
                na = nd.ite(na, ONE, ZERO)
            if nd.is_bool(nb):
                nb = nd.ite(nb, ONE, ZERO)
        if t is ast.Add:
            r = nd.add(na, nb)
        elif t is ast.Sub:
            r = nd.sub(na, nb)
        elif t is ast.Mult:
            r = nd.mul(na, nb)
        elif t is ast.Div:
            r = nd.div(na, nb)
        elif t is ast.Pow:
            r = nd.power(na, nb)
        elif t is ast.FloorDiv:
            r = mk('fdiv', na, nb) if not (na.op == 'num' and nb.op == 'num' and nb.args[0] != 0) else num(na.args[0] // nb.args[0])
        elif t is ast.Mod:
            r = mk('mod', na, nb) if not (na.op == 'num' and nb.op == 'num' and nb.args[0] != 0) else num(na.args[0] % nb.args[0])
        elif t is ast.MatMult:
            r = mk('matmul', na, nb)
        elif t is ast.BitAnd:
            r = nd.andn(na, nb) if nd.is_bool(na) or nd.is_bool(nb) else mk('fn', 'bitand', na, nb)
        elif t is ast.BitOr:
            r = nd.orn(na, nb) if nd.is_bool(na) or nd.is_bool(nb) else mk('fn', 'bitor', na, nb)
        else:
            r = mk('fn', t.__name__, na, nb)
        ta, tb = self.is_tensor(st, a), self.is_tensor(st, b)
        if ta or tb:
            sh = (self.shape(st, a) if ta else None) or (self.shape(st, b) if tb else None)
            return self.tensor(st, r, sh)
        return r

    def seq(self, v, st):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Ref):
            c = st.heap.get(v.loc)
            if isinstance(c, LC) and c.base is None and c.elem is None and all(g is TRUE for g, _ in c.items):
                return [x for _, x in c.items]
        return None

    def e_Compare(self, e, st, mod):
        left = self.eval(e.left, st, mod)
        res = None
        tens = False
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st, mod)
            c = self.compare(op, left, right, st)
            if self.is_tensor(st, left) or self.is_tensor(st, right):
                if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
                    tens = True
            res = c if res is None else nd.andn(res, c)
            left = right
        if tens:
            return self.tensor(st, res)
        return res

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b, st)
            return r if isinstance(op, ast.Is) else nd.notn(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st)
            return r if isinstance(op, ast.In) else nd.notn(r)
        na, nb = self.node(st, a), self.node(st, b)
        t = type(op)
        if t is ast.Gt:
            return nd.gt(na, nb)
        if t is ast.Lt:
            return nd.gt(nb, na)
        if t is ast.GtE:
            return nd.ge(na, nb)
        if t is ast.LtE:
            return nd.ge(nb, na)
        if t is ast.Eq:
            return self.eq(na, nb, st)
        return nd.notn(self.eq(na, nb, st))

    def eq(self, a, b, st):
        if a.op == 'str' and b.op == 'str':
            return TRUE if a is b else FALSE
        return self.decide(nd.eqn(a, b), st)

    def is_(self, a, b, st):
        if isinstance(a, UnionV):
            return nd.ite(self.decide(a.cond, st), self.is_(a.a, b, st), self.is_(a.b, b, st))
        if isinstance(b, N) and b is NONE:
            if isinstance(a, N):
                if a is NONE:
                    return TRUE
                if a.op == 'ite':
                    return nd.orn(nd.andn(a.args[0], self.is_(a.args[1], b, st)), nd.andn(nd.notn(a.args[0]), self.is_(a.args[2], b, st)))
                return self.decide(nd.eqn(a, NONE), st)
            return FALSE
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            return TRUE
        na, nb = self.node(st, a), self.node(st, b)
        return self.decide(nd.eqn(na, nb), st)

    def contains(self, a, b, st):
        if isinstance(b, UnionV):
            return nd.ite(self.decide(b.cond, st), self.contains(a, b.a, st), self.contains(a, b.b, st))
        items = self.concrete_items(b, st)
        na = self.node(st, a)
        if items is not None:
            return nd.orn(*[self.eq(na, self.node(st, x), st) for x in items])
        if isinstance(b, Ref) and isinstance(st.heap.get(b.loc), DC):
            c = st.heap[b.loc]
            if na in c.entries:
                return TRUE
            if c.base is not None:
                return self.decide(mk('in', na, c.base), st)
            if all(nd.distinct(k, na) for k in c.entries):
                return FALSE
        nb = self.node(st, b)
        if na.op == 'str' and nb.op == 'str':
            return TRUE if na.args[0] in nb.args[0] else FALSE
        return self.decide(mk('in', na, nb), st)

    def e_Attribute(self, e, st, mod):
        o = self.eval(e.value, st, mod)
        return self.getattr(o, e.attr, st, e)

    def getattr(self, o, a, st, e, default=None):
        if isinstance(o, UnionV):
            c = self.decide(o.cond, st)
            if c is TRUE:
                return self.getattr(o.a, a, st, e, default)
            if c is FALSE:
                return self.getattr(o.b, a, st, e, default)
            if isinstance(o.b, N) and o.b is NONE:
                return self.getattr(o.a, a, st, e, default)
            if isinstance(o.a, N) and o.a is NONE:
                return self.getattr(o.b, a, st, e, default)
            s1, s2 = st.fork(), st.fork()
            s1.pc = s1.pc | lits(c)
            s2.pc = s2.pc | lits(nd.notn(c))
            v1 = self.getattr(o.a, a, s1, e, default)
            v2 = self.getattr(o.b, a, s2, e, default)
            return self.join_values(c, s1, v1, s2, v2, st)
        if isinstance(o, Ref):
            c = st.heap.get(o.loc)
            if isinstance(c, OC):
                if a in c.attrs and c.attrs[a] is not UNDEF:
                    return c.attrs[a]
                if c.cls is not None:
                    f = c.cls.lookup(a)
                    if f is not None:
                        return self.bind_attr(f, o, c.cls, st, e)
                    if a == '__dict__':
                        return sym('dict', o.loc)
                    if default is not None:
                        return default
                    if c.base is not None:
                        return mk('attr', c.base, a)
                    if not c.cls.ext_bases():
                        self.event('undefattr', (c.cls.name, a), (o,), {}, st, e)
                        return sym('undefattr', c.cls.name, a)
                    return MethV(o, a)
                if c.base is not None:
                    return mk('attr', c.base, a)
            return self.ext_attr(o, a, st, e)
        if isinstance(o, ModV):
            if a in o.mod.env:
                return o.mod.env[a]
            sub = o.mod.name + '.' + a
            if sub in self.modules:
                return ModV(self.module(sub))
            self.event('undefattr', (o.mod.name, a), (o,), {}, st, e)
            return sym('undefattr', o.mod.name, a)
        if isinstance(o, ClassV):
            f = o.lookup(a)
            if f is not None:
                if isinstance(f, FuncV) and any(ast.unparse(d) == 'classmethod' for d in f.decorators):
                    return BoundV(f, o)
                return f
            return sym('classattr', o.name, a)
        if isinstance(o, ExtV):
            return ExtV(o.name + '.' + a)
        if isinstance(o, SuperV):
            for b in o.cls.bases:
                if isinstance(b, ClassV):
                    f = b.lookup(a)
                    if f is not None:
                        return self.bind_attr(f, o.selfv, b, st, e)
            return MethV(o, a)
        return self.ext_attr(o, a, st, e)

    def bind_attr(self, f, o, cls, st, e):
        if isinstance(f, FuncV):
            decs = [ast.unparse(d) for d in f.decorators]
            if 'property' in decs or 'functools.cached_property' in decs or 'cached_property' in decs:
                return self.call_func(f, [o], {}, st, e)
            if 'staticmethod' in decs:
                return f
            if 'classmethod' in decs:
                return BoundV(f, cls)
            return BoundV(f, o)
        return f

    def ext_attr(self, o, a, st, e):
        from . import ext
        return ext.attr(self, st, o, a, e)

    def e_Subscript(self, e, st, mod):
        o = self.eval(e.value, st, mod)
        k = self.eval(e.slice, st, mod)
        return self.getitem(o, k, st, e)

    def getitem(self, o, k, st, e):
        if isinstance(o, UnionV):
            c = self.decide(o.cond, st)
            if c is TRUE:
                return self.getitem(o.a, k, st, e)
            if c is FALSE:
                return self.getitem(o.b, k, st, e)
            if isinstance(o.b, N) and o.b is NONE:
                return self.getitem(o.a, k, st, e)
            s1, s2 = st.fork(), st.fork()
            v1 = self.getitem(o.a, k, s1, e)
            v2 = self.getitem(o.b, k, s2, e)
            return self.join_values(c, s1, v1, s2, v2, st)
        if isinstance(o, Ref):
            c = st.heap.get(o.loc)
            if isinstance(c, LC):
                kn = k if isinstance(k, SliceV) else self.node(st, k)
                if isinstance(k, SliceV):
                    if c.base is None and c.elem is None and all(g is TRUE for g, _ in c.items):
                        try:
                            sl = slice(*[None if x is NONE else int(nd.numval(self.node(st, x))) for x in (k.start, k.stop, k.step)])
                            return self.new(st, LC(c.items[sl]))
                        except TypeError:
                            pass
                    return mk('item', self.node(st, o), self.node(st, k))
                i = nd.numval(kn)
                if i is not None and c.base is None and c.elem is None and all(g is TRUE for g, _ in c.items):
                    if -len(c.items) <= i < len(c.items):
                        return c.items[int(i)][1]
                if i in (0, -1) and c.base is None and c.elem is None and c.items and all(isinstance(x, N) for _, x in c.items):
                    r = sym('missing item')
                    for g, x in (reversed(c.items) if i == 0 else c.items):
                        r = x if g is TRUE else nd.ite(g, x, r)
                    return r
                if i in (0, -1) and c.base is not None and c.base.op == 'sorted' and c.base.args[0].op == 'list' and c.base.args[0].args \
                        and c.base.args[1] is NONE and c.base.args[2].op == 'bool':
                    big = (i == 0) == (c.base.args[2] is TRUE)
                    inf = sym('-inf' if big else '+inf')
                    return (nd.maxn if big else nd.minn)(*[mk('ite', x.args[0], x.args[1], inf) if x.op == 'guarded' else x for x in c.base.args[0].args])
                if c.elem is not None and not isinstance(c.elem, N):
                    return c.elem
                return mk('item', self.node(st, o), kn)
            if isinstance(c, DC):
                kn = self.node(st, k)
                if kn in c.entries:
                    return c.entries[kn]
                if c.base is not None:
                    return mk('item', c.base, kn)
                if kn.op == 'str' and all(x.op == 'str' for x in c.entries):
                    self.event('keyerror', kn, (o,), {}, st, e)
                elif c.entries and kn.op == 'ite':
                    a = self.getitem(o, kn.args[1], st, e)
                    b = self.getitem(o, kn.args[2], st, e)
                    s1, s2 = st.fork(), st.fork()
                    return self.join_values(kn.args[0], s1, a, s2, b, st)
                return mk('item', self.node(st, o), kn)
            if isinstance(c, (TC, VC)):
                base = self.node(st, o)
                if base.op in ('tuple', 'list') and not isinstance(k, (SliceV, tuple)):
                    i = nd.numval(self.node(st, k))
                    if i is not None and -len(base.args) <= i < len(base.args):
                        return base.args[int(i)]
                key = self.key(k, st)
                if len(key) == 1 and isinstance(key[0], N) and base in self.shape_hint:
                    i = nd.numval(key[0])
                    if i is not None:
                        return self.shape_hint[base][int(i)]
                basic = all((isinstance(x, tuple) and x[0] == 'sl') or
                            (isinstance(x, N) and (x.op == 'num' or nd.shape_of(x) == 'scalar')) for x in key)
                if not key:
                    return o
                if basic:
                    return self.new(st, VC(o, key))
                return self.tensor(st, nd.idx(base, key))
            if isinstance(c, OC):
                f = c.cls.lookup('__getitem__') if c.cls else None
                if f is not None:
                    return self.call_func(f, [o, k], {}, st, e)
        if isinstance(o, tuple):
            if isinstance(k, SliceV):
                try:
                    return o[slice(*[None if x is NONE else int(nd.numval(self.node(st, x))) for x in (k.start, k.stop, k.step)])]
                except TypeError:
                    pass
            else:
                i = nd.numval(self.node(st, k))
                if i is not None and -len(o) <= i < len(o):
                    return o[int(i)]
        b = self.node(st, o)
        if b in self.shape_hint and not isinstance(k, (SliceV, tuple)):
            i = nd.numval(self.node(st, k))
            if i is not None and -len(self.shape_hint[b]) <= i < len(self.shape_hint[b]):
                return self.shape_hint[b][int(i)]
        if b.op in ('tuple', 'list') and not isinstance(k, (SliceV, tuple)):
            i = nd.numval(self.node(st, k))
            if i is not None and -len(b.args) <= i < len(b.args):
                return b.args[int(i)]
        if isinstance(k, N) and k.op == 'str':
            return mk('item', b, k)
        if nd.shape_of(b) is not None and nd.shape_of(b) != 'scalar':
            return nd.idx(b, self.key(k, st))
        if isinstance(k, (SliceV, tuple)):
            return nd.idx(b, self.key(k, st))
        return mk('item', b, self.node(st, k))

    def comp(self, e, st, mod, make):
        g = e.generators[0]
        it = self.eval(g.iter, st, mod)
        items = self.concrete_items(it, st)
        saved = dict(st.env)
        if items is None:
            base, elem = self.iter_elem(it, st, e)
            items = [elem]
            abstract = base
        else:
            abstract = None
        out = []
        for v in items:
            self.assign(g.target, v, st, mod, e)
            guard = TRUE
            for c in g.ifs:
                guard = nd.andn(guard, self.truth(st, self.eval(c, st, mod)))
            if guard is FALSE:
                continue
            if len(e.generators) > 1:
                e2 = type(e)(**{**{f: getattr(e, f) for f in e._fields}, 'generators': e.generators[1:]})
                sub = self.comp(e2, st, mod, lambda x: x)
                for gg, x in sub[1]:
                    out.append((nd.andn(guard, gg), x))
                continue
            out.append((guard, make(st)))
        st.env = saved
        return abstract, out

    def e_ListComp(self, e, st, mod):
        abstract, out = self.comp(e, st, mod, lambda s: self.eval(e.elt, s, mod))
        if abstract is not None:
            g, v = out[0] if out else (TRUE, NONE)
            b = mk('mapped', abstract, self.node(st, v), g)
            return self.new(st, LC((), v if not isinstance(v, N) else None, b))
        return self.new(st, LC(out))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, mod):
        return self.e_ListComp(e, st, mod)

    def e_DictComp(self, e, st, mod):
        abstract, out = self.comp(e, st, mod, lambda s: (self.eval(e.key, s, mod), self.eval(e.value, s, mod)))
        if abstract is not None:
            g, v = out[0] if out else (TRUE, (NONE, NONE))
            return self.new(st, DC({}, mk('mappeddict', abstract, self.node(st, v[0]), self.node(st, v[1]))))
        return self.new(st, DC({self.node(st, k): v for g, (k, v) in out}))

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, mod):
        # print() has no effect on simulator state
        if isinstance(e.func, ast.Name) and e.func.id == 'print' and 'print' not in mod.env:
            return NONE
        f = self.eval(e.func, st, mod)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, mod)
                items = self.concrete_items(v, st)
                if items is None:
                    b = self.node(st, v)
                    if b in self.shape_hint:
                        items = list(self.shape_hint[b])
                if items is None:
                    args.append(mk('star', self.node(st, v)))
                else:
                    args.extend(items)
            else:
                args.append(self.eval(a, st, mod))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, st, mod)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(st.heap.get(v.loc), DC):
                    for kk, x in st.heap[v.loc].entries.items():
                        if kk.op == 'str':
                            kw[kk.args[0]] = x
                continue
            kw[k.arg] = v
        return self.call(f, args, kw, st, e)

    def call(self, f, args, kw, st, e):
        from . import ext
        if isinstance(f, UnionV):
            c = self.decide(f.cond, st)
            if c is TRUE:
                return self.call(f.a, args, kw, st, e)
            if c is FALSE:
                return self.call(f.b, args, kw, st, e)
            s1, s2 = st.fork(), st.fork()
            s1.pc = s1.pc | lits(c)
            s2.pc = s2.pc | lits(nd.notn(c))
            v1 = self.call(f.a, args, kw, s1, e)
            v2 = self.call(f.b, args, kw, s2, e)
            return self.join_values(c, s1, v1, s2, v2, st)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw, st, e)
        if isinstance(f, BoundV):
            return self.call_func(f.func, [f.selfv] + args, kw, st, e)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw, st, e)
        if isinstance(f, ExtV):
            return ext.call(self, st, f.name, args, kw, e)
        if isinstance(f, MethV):
            return ext.method(self, st, f.recv, f.name, args, kw, e)
        n = self.node(st, f)
        if n.op == 'attr':
            return ext.method(self, st, n.args[0], n.args[1], args, kw, e)
        return self.opaque_call(n, args, kw, st, e)

    def opaque_call(self, n, args, kw, st, e):
        r = mk('call', n, *([self.node(st, a) for a in args] + [mk('kw', k, self.node(st, v)) for k, v in sorted(kw.items())]))
        self.event('call', nd.show(n), [self.node(st, a) for a in args], {k: self.node(st, v) for k, v in kw.items()}, st, e, r)
        return r

    def instantiate(self, c, args, kw, st, e):
        stub = self.stubs.get(c.name)
        if stub is not None:
            return stub(self, st, args, kw)
        r = self.new(st, OC(c, {}))
        init = c.lookup('__init__')
        if init is not None:
            self.call_func(init, [r] + args, kw, st, e)
        elif getattr(c, 'dataclass', False):
            cell = st.heap[r.loc]
            attrs = {}
            for i, nm in enumerate(c.order):
                if i < len(args):
                    attrs[nm] = args[i]
                elif nm in kw:
                    attrs[nm] = kw[nm]
                else:
                    attrs[nm] = c.attrs.get(nm, sym('field', c.name, nm))
            st.heap[r.loc] = OC(c, attrs)
        self.event('new', c.name, (r,), kw, st, e)
        return r

    def call_func(self, f, args, kw, st, e):
        stub = self.stubs.get(f.qual)
        if stub is not None:
            r = stub(self, st, args, kw)
            if r is not NotImplemented:
                return r
        if self.linsolve_hook:
            r = self.linsolve(f, args, kw, st, e)
            if r is not None:
                return r
        if sum(1 for x in self.stack if x is f or getattr(x, 'node', None) is f.node) >= self.recursion and len(self.stack) > 1 or len(self.stack) > MAXDEPTH:
            # recursion: uninterpreted
            return self.opaque_call(sym('rec', f.qual), args, kw, st, e)
        self.functions_analysed.add((f.module.path, f.qual))
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        for i, v in enumerate(args):
            if i < len(pos):
                env[pos[i]] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = self.new(st, DC({string(k): v for k, v in extra.items()}))
        elif extra:
            self.event('badcall', f.qual, (), {k: NONE for k in extra}, st, e)
        defs = a.defaults
        dn = pos[len(pos) - len(defs):]
        m = f.module
        for nme, d in zip(dn, defs):
            if nme not in env:
                env[nme] = self.eval_default(d, st, m)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.eval_default(d, st, m)
        for nme in pos:
            if nme not in env:
                self.event('badcall', f.qual, (), {nme: NONE}, st, e)
                env[nme] = sym('missing', f.qual, nme)
        sub = State(st.heap, env, st.pc)
        self.stack.append(f)
        try:
            if isinstance(f.node, ast.Lambda):
                if f.closure:
                    for k, v in f.closure.items():
                        env.setdefault(k, v)
                v = self.eval(f.node.body, sub, m)
                st.heap, st.pc = sub.heap, sub.pc
                return v
            outs = self.exec_block(f.node.body, sub, m)
        finally:
            self.stack.pop()
        rets = []
        for k, s, v in outs:
            if k == 'return':
                rets.append((s, v))
            elif k == 'normal':
                rets.append((s, NONE))
        if not rets:
            raise PathDead()
        pc0 = st.pc
        if len(rets) == 1:
            s, v = rets[0]
            st.heap, st.pc = s.heap, s.pc
            return v
        # first-match join in program order
        acc, av = rets[-1]
        seen = []
        conds = []
        for s, v in rets[:-1]:
            c = [x for x in s.pc if x not in pc0]
            neg = {nd.notn(y[0]) for y in seen if len(y) == 1}
            c = [x for x in c if x not in neg]
            seen.append(c)
            conds.append(nd.andn(*c))
        for (s, v), c in reversed(list(zip(rets[:-1], conds))):
            if c is TRUE:
                # unconditional (loop exit): discriminate opaquely
                c = sym('retcond', f.qual)
            s1 = State(s.heap, {'$v': v}, s.pc)
            s2 = State(acc.heap, {'$v': av}, acc.pc)
            mm = self.merge(c, s1, s2)
            acc, av = mm, mm.env['$v']
        st.heap, st.pc = acc.heap, acc.pc
        self.last_rets = [(s.pc, v) for s, v in rets]
        return av

    def linsolve(self, f, args, kw, st, e):
        """a repo function that receives an assembled sparse matrix is a linear solver: its result is
        kept opaque here (the solvers are analysed on their own)"""
        allv = list(args) + list(kw.values())
        A = None
        for v in allv:
            if isinstance(v, Ref) and isinstance(st.heap.get(v.loc), TC) and st.heap[v.loc].node.op in ('spcoo', 'spcsr'):
                A = st.heap[v.loc].node
                break
        if A is None or isinstance(f.node, ast.Lambda):
            return None
        rets = [n for n in ast.walk(f.node) if isinstance(n, ast.Return) and n.value is not None]
        if not rets:
            return None
        if not self.is_solver(f, args, kw, A, st):
            return None
        n = {len(r.value.elts) if isinstance(r.value, ast.Tuple) else 1 for r in rets}
        if len(n) != 1:
            return None
        n = n.pop()
        argn = [self.node(st, v) for v in args if not (isinstance(v, Ref) and isinstance(st.heap.get(v.loc), OC))]
        argn += [mk('kw', k, self.node(st, v)) for k, v in sorted(kw.items())]
        base = mk('linsolve', sym('func', f.qual), *argn)
        self.event('linsolve', f.qual, argn, {}, st, e, base)
        self.linsolves.append((f, base))
        nd.SHAPES[base] = ('flat', 'grid')
        x = self.tensor(st, base)
        if n == 1:
            return x
        return (x,) + tuple(mk('truthy', mk('item', base, num(i))) for i in range(1, n))

    def is_solver(self, f, args, kw, A, st):
        """iterates itself (does not only pass the matrix on to another function of the repository)"""
        if 'solver' in f.module.name.split('.')[:-1] or f.module.name.startswith('solver'):
            return True
        if not any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(f.node)):
            return False
        pos = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        names = {nm for nm, v in list(zip(pos, args)) + list(kw.items())
                 if isinstance(v, Ref) and isinstance(st.heap.get(v.loc), TC) and st.heap[v.loc].node is A}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.value.id == 'self':
                for a in list(n.args) + [k.value for k in n.keywords]:
                    if isinstance(a, ast.Name) and a.id in names:
                        return False
        return True

    def eval_default(self, d, st, m):
        s = State(st.heap, dict(m.env), st.pc)
        v = self.eval(d, s, m)
        st.heap = s.heap
        return v

    # top-level: run a method/func and return all exits separately
    def run_exits(self, f, args, kw, st):
        """[(kind, state, value)] with return exits not merged"""
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        for i, v in enumerate(args):
            if i < len(pos):
                env[pos[i]] = v
        env.update(kw)
        for nme, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if nme not in env:
                env[nme] = self.eval_default(d, st, f.module)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.eval_default(d, st, f.module)
        sub = State(dict(st.heap), env, st.pc)
        self.functions_analysed.add((f.module.path, f.qual))
        self.stack.append(f)
        try:
            outs = self.exec_block(f.node.body, sub, f.module)
        finally:
            self.stack.pop()
        return [('return' if k == 'normal' else k, s, NONE if k == 'normal' else v) for k, s, v in outs]


class _ModFrame:
    cls = None
    closure = None

    def __init__(self, m):
        self.module = m
        self.node = None
        self.qual = '<module>'


def lits(c):
    if c.op == 'and':
        return frozenset(c.args)
    return frozenset([c]) if c is not TRUE else frozenset()


def unmask(v, m):
    """undo pointwise masking: value v computed from x[m] slices"""
    key = (m,)
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = x.args[0] if x.op == 'idx' and x.args[1] == key else nd.rebuild(x, go)
            memo[x] = r
        return r
    return go(v)


def counted(k):
    """is an index made of numbers, scalars and loop counters?"""
    return all(a.op == 'iv' or nd.shape_of(a) == 'scalar' for m in nd.terms(k) for a, e in m)


def lsum(lid, d):
    """sum over loop iterations of d (linear)"""
    out = {}
    t = nd.terms(d)
    for m, c in t.items():
        inv, var = [], []
        for a, e in m:
            if depends_iter(a, lid):
                var.append((a, e))
            else:
                inv.append((a, e))
        base = nd.from_terms({tuple(var): 1})
        s = mk('sum', lid, base)
        mm = nd.mono_mul(tuple(inv), ((s, 1),))
        out[mm] = out.get(mm, 0) + c
    return nd.from_terms(out)


def depends_iter(a, lid):
    base = lid.args[0]
    return nd.contains(a, lambda x: (x.op in ('elem', 'iv') and x.args[0] is base) or
                       (x.op == 'sym' and x.args[0] == 'elem') or
                       (x.op == 'mu' and x.args[0] is lid) or x.op == 'sc')


def vectorise(init, mu, back, base, shape):
    """for i in range(a,b): x[.., i, ..] = f(y[.., i+c, ..])  ->  slice assignment"""
    if back.op != 'upd' or back.args[0] is not mu or base.op != 'range':
        return None
    if base.args[2] is not ONE:
        return None
    a, b = base.args[0], base.args[1]
    iv = mk('iv', base)
    key, val = back.args[1], back.args[2]
    if nd.contains(val, lambda x: x is mu):
        return None
    axis = None
    for i, k in enumerate(key):
        if isinstance(k, N) and nd.contains(k, lambda x: x is iv):
            if axis is not None:
                return None
            axis = i
    if axis is None:
        return None
    n = nd.sub(b, a)
    ok = [True]

    def comp(k, size):
        off = nd.sub(k, iv)
        if nd.contains(off, lambda x: x is iv):
            ok[0] = False
            return k
        lo = nd.add(a, off)
        hi = nd.add(b, off)
        st_ = None if lo is ZERO else lo
        if size is not None:
            d = nd.sub(hi, size)
            hi2 = None if d is ZERO else (d if d.op == 'num' else hi)
        else:
            hi2 = hi
        return ('sl', st_, hi2)

    def size_of(x, ax):
        sh = nd.shape_of(x)
        if sh == 'grid' and nd.GRID_DIMS[0] and ax < 3:
            return nd.GRID_DIMS[0][ax]
        return None

    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = memo[x] = go_(x)
        return r

    def go_(x):
        if x.op == 'idx' and isinstance(x.args[1], tuple):
            k = x.args[1]
            nk = []
            for i, c in enumerate(k):
                if isinstance(c, N) and nd.contains(c, lambda y: y is iv):
                    nk.append(comp(c, size_of(x.args[0], i)))
                else:
                    nk.append(c)
            return nd.idx(go(x.args[0]), tuple(nk))
        return nd.rebuild(x, go)
    v2 = go(val)
    if nd.contains(v2, lambda x: x is iv):
        return None
    size = None
    if isinstance(shape, tuple) and axis < len(shape):
        size = shape[axis]
    elif shape == 'grid' and nd.GRID_DIMS[0]:
        size = nd.GRID_DIMS[0][axis]
    nk = tuple(comp(c, size) if i == axis else c for i, c in enumerate(key))
    if not ok[0]:
        return None
    while nk and nk[-1] == ('sl', None, None):
        nk = nk[:-1]
    if not nk:
        return v2
    return mk('upd', init, nk, v2)

"""Attributes and call signatures of project objects over the syntax tree (rule C27)."""
import ast
from .values import FuncV, ClassV, ModV, Ref, OC, LC, UnionV
from .names import functions

OPEN_BASES = ('object', 'ABC', 'Protocol', 'NamedTuple')


class Project:
    def __init__(self, world):
        self.w, self.ip = world, world.ip
        self.mods = {m.name: m for m in self.ip.modules.values()}
        self.classes = {}
        for m in self.mods.values():
            for v in m.env.values():
                if isinstance(v, ClassV) and v.module is m:
                    self.classes[v] = self.describe(v)
        self.outside()
        self.types = {}         # (class, attribute) -> set of classes ('[X]' items as ('list', X))
        self.heap_types()
        self.source_types()

    # ---------------------------------------------------------------- classes
    def describe(self, c):
        attrs, openc = set(), False
        for x in ast.walk(c.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name):
                attrs.add((x.value.id, x.attr))
        for x in ast.walk(c.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) >= 2:
                if isinstance(x.args[1], ast.Constant):
                    attrs.add(('self', x.args[1].value))
                else:
                    openc = True
            if isinstance(x, ast.Attribute) and x.attr in ('__dict__',) or isinstance(x, ast.FunctionDef) and x.name in ('__getattr__', '__getattribute__'):
                openc = True
        own = {a for s, a in attrs if s == 'self'}
        for s in c.node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                own.add(s.name)
                if isinstance(s, ast.FunctionDef) and s.args.args and s.args.args[0].arg != 'self':
                    own |= {a for n, a in attrs if n == s.args.args[0].arg}
            elif isinstance(s, ast.Assign):
                own |= {t.id for t in s.targets if isinstance(t, ast.Name)}
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                own.add(s.target.id)
        return [own, openc]

    def outside(self):
        """attributes set on objects from outside their class: `anything.name = ...` makes the name exist on every class"""
        self.extra = set()
        for m in self.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id == 'self'):
                    self.extra.add(x.attr)

    def has(self, c, a):
        """True, False or None (unknown)"""
        own, openc = self.classes[c]
        if a in own or a in self.extra or a.startswith('__') and a.endswith('__'):
            return True
        unk = openc
        for b in c.bases:
            if isinstance(b, ClassV) and b in self.classes:
                r = self.has(b, a)
                if r:
                    return True
                unk = unk or r is None
            elif getattr(b, 'name', '').split('.')[-1] not in OPEN_BASES:
                unk = True
        return None if unk else False

    # ---------------------------------------------------------------- types of attributes
    def heap_types(self, st=None):
        st = st or self.w.st
        for l, c in list(st.heap.items()):
            if isinstance(c, OC) and c.cls is not None:
                for a, v in c.attrs.items():
                    t = self.type_of(v, st)
                    if t is not None:
                        self.types.setdefault((c.cls.name, a), set()).add(t)

    def source_types(self):
        """attributes every assignment of which constructs the same class"""
        got = {}
        for c in self.classes:
            for x in ast.walk(c.node):
                tg = []
                if isinstance(x, ast.Assign):
                    tg, v = x.targets, x.value
                elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                    tg, v = [x.target], x.value
                for t in tg:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                        k = None
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
                            k = c.module.env.get(v.func.id)
                        got.setdefault((c, t.attr), set()).add(k if isinstance(k, ClassV) else None)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for y in t.elts:
                            if isinstance(y, ast.Attribute):
                                got.setdefault((c, y.attr), set()).add(None)
        for (c, a), s in got.items():
            if len(s) == 1 and None not in s and (c.name, a) not in self.types and a not in self.extra:
                self.types[c.name, a] = set(s)

    def type_of(self, v, st):
        if isinstance(v, UnionV):
            return self.type_of(v.a, st) or self.type_of(v.b, st)
        if isinstance(v, Ref):
            c = st.heap.get(v.loc)
            if isinstance(c, OC) and c.cls is not None:
                return c.cls
            if isinstance(c, LC) and c.items:
                t = self.type_of(c.items[0][1], st)
                return ('list', t) if t is not None else None
        return None

    def attr_type(self, t, a):
        if not isinstance(t, ClassV):
            return None
        s = self.types.get((t.name, a), set())
        return next(iter(s)) if len(s) == 1 else None


class Body:
    """types of the local names of one function, and its calls and attribute reads"""

    def __init__(self, P, mod, fn, cls, report):
        self.P, self.mod, self.fn, self.cls, self.report = P, mod, fn, cls, report
        self.env = {}
        self.multi = set()
        self.n = 0
        a = fn.args if fn is not None else None
        static = fn is not None and any(ast.unparse(d) == 'staticmethod' for d in fn.decorator_list)
        clsm = fn is not None and any(ast.unparse(d) == 'classmethod' for d in fn.decorator_list)
        if a is not None:
            allp = a.posonlyargs + a.args
            if cls is not None and allp and not static and not clsm:
                self.env[allp[0].arg] = cls
            for p in allp + a.kwonlyargs:
                t = self.named(p.annotation)
                if t is not None and p.arg not in self.env:
                    self.env[p.arg] = t
        self.own = own = [s for s in self.statements(fn.body if fn is not None else mod.tree.body)]
        for k in range(3):
            for s in own:
                self.bind(s)
        self.guards = {x.args[1].value for s in own for x in self.local(s) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)
                       and x.func.id in ('hasattr', 'getattr') and len(x.args) > 1 and isinstance(x.args[1], ast.Constant)}
        for s in own:
            for x in self.local(s):
                self.visit(x)

    def named(self, ann):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Name):
            v = self.mod.env.get(ann.id)
            return v if isinstance(v, ClassV) else None
        return None

    def statements(self, body):
        for s in body:
            yield s

    def local(self, s):
        """nodes of a statement, not entering nested functions and classes"""
        work = [s]
        while work:
            x = work.pop()
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            yield x
            work += list(ast.iter_child_nodes(x))

    def bind(self, s):
        for x in self.local(s):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                self.put(x.targets[0].id, self.type(x.value))
            elif isinstance(x, (ast.For, ast.comprehension)):
                t = self.type(x.iter)
                tg = x.target
                if isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == 'enumerate' and x.iter.args \
                        and isinstance(tg, ast.Tuple) and len(tg.elts) == 2:
                    t, tg = self.type(x.iter.args[0]), tg.elts[1]
                if isinstance(tg, ast.Name):
                    self.put(tg.id, t[1] if isinstance(t, tuple) else None)
                elif isinstance(tg, ast.Tuple):
                    for y in tg.elts:
                        if isinstance(y, ast.Name):
                            self.put(y.id, None)
            elif isinstance(x, (ast.Tuple, ast.List)) and isinstance(x.ctx, ast.Store):
                for y in x.elts:
                    if isinstance(y, ast.Name):
                        self.put(y.id, None, hard=True)
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and isinstance(x.target, ast.Name):
                self.put(x.target.id, None, hard=True)
            elif isinstance(x, ast.withitem) and isinstance(x.optional_vars, ast.Name):
                self.put(x.optional_vars.id, None)

    def put(self, n, t, hard=False):
        if n in self.multi:
            return
        if n in self.env and self.env[n] is not t and self.env[n] != t:
            if self.env[n] is None and not hard:
                self.env[n] = None
            self.multi.add(n)
            self.env[n] = None
            return
        if t is None:
            self.multi.add(n)
            self.env[n] = None
        else:
            self.env[n] = t

    def type(self, x):
        if isinstance(x, ast.Name):
            return self.env.get(x.id)
        if isinstance(x, ast.Attribute):
            return self.P.attr_type(self.type(x.value), x.attr)
        if isinstance(x, ast.Subscript):
            t = self.type(x.value)
            return t[1] if isinstance(t, tuple) and not isinstance(x.slice, ast.Slice) else t if isinstance(t, tuple) else None
        if isinstance(x, ast.Call):
            f = self.callee(x.func)
            if isinstance(f, ClassV):
                return f
            if isinstance(f, FuncV):
                return self.returned(f)
        return None

    def returned(self, f, depth=0):
        """class of what a simple accessor returns"""
        r = [x for x in ast.walk(f.node) if isinstance(x, ast.Return)]
        if len(r) != 1 or f.cls is None or depth > 3:
            return None
        v = r[0].value
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and f.node.args.args and v.value.id == f.node.args.args[0].arg:
            return self.P.attr_type(f.cls, v.attr)
        return None

    def callee(self, f):
        """project function, method or class called, or None"""
        if isinstance(f, ast.Name):
            if f.id in self.env or self.shadowed(f.id):
                return None
            v = self.mod.env.get(f.id)
            return v if isinstance(v, (FuncV, ClassV)) else None
        if isinstance(f, ast.Attribute):
            t = self.type(f.value)
            if isinstance(t, ClassV):
                v = t.lookup(f.attr)
                return v if isinstance(v, FuncV) else None
            m = self.module(f.value)
            if m is not None:
                v = m.env.get(f.attr)
                return v if isinstance(v, (FuncV, ClassV)) else None
        return None

    def module(self, x):
        if isinstance(x, ast.Name) and x.id not in self.env and not self.shadowed(x.id):
            v = self.mod.env.get(x.id)
            return v.mod if isinstance(v, ModV) else None
        return None

    def shadowed(self, n):
        return self.fn is not None and any(isinstance(y, ast.Name) and y.id == n and isinstance(y.ctx, ast.Store) for s in self.own for y in self.local(s)) \
            or self.fn is not None and n in {a.arg for a in self.fn.args.args + self.fn.args.kwonlyargs}

    # ---------------------------------------------------------------- checks
    def visit(self, x):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
            t = self.type(x.value)
            if isinstance(t, ClassV) and t in self.P.classes:
                self.n += 1
                if self.P.has(t, x.attr) is False and x.attr not in self.guards:
                    self.report('attribute', '%s.%s' % (t.name, x.attr), x, 'objects of class %s never get an attribute %s' % (t.name, x.attr))
            m = self.module(x.value)
            if m is not None:
                self.n += 1
                if x.attr not in m.env and (m.name + '.' + x.attr) not in self.P.mods and not x.attr.startswith('__'):
                    self.report('attribute', '%s.%s' % (m.name, x.attr), x, 'module %s has no %s' % (m.name, x.attr))
        elif isinstance(x, ast.Call):
            f = self.callee(x.func)
            if f is not None:
                self.n += 1
                self.call(x, f)
        elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Tuple, ast.List)) and isinstance(x.value, ast.Call):
            f = self.callee(x.value.func)
            if isinstance(f, FuncV):
                self.n += 1
                self.unpack(x, f)

    def call(self, x, f):
        bound = False
        if isinstance(f, ClassV):
            init = f.lookup('__init__')
            if init is None:
                if all(isinstance(b, ClassV) or getattr(b, 'name', '') in ('object', 'builtins.object') for b in f.bases) and not f.node.decorator_list and \
                        (x.args or x.keywords) and f.lookup('__new__') is None and not any(isinstance(a, ast.Starred) for a in x.args):
                    self.report('signature', f.name, x, '%s takes no arguments' % f.name)
                return
            f, bound = init, True
        elif f.cls is not None:
            decs = [ast.unparse(d) for d in f.decorators]
            if 'staticmethod' not in decs:
                bound = True
            if any(d not in ('staticmethod', 'classmethod') and not d.startswith(('torch.no_grad', 'torch.inference_mode', 'functools.lru_cache', 'lru_cache')) for d in decs):
                return
        elif f.decorators and any(not ast.unparse(d).startswith(('torch.no_grad', 'torch.inference_mode', 'functools.lru_cache', 'lru_cache')) for d in f.decorators):
            return
        a = f.node.args
        if any(isinstance(y, ast.Starred) for y in x.args) or any(k.arg is None for k in x.keywords):
            return
        pos = [p.arg for p in a.posonlyargs + a.args][1 if bound else 0:]
        kwo = [p.arg for p in a.kwonlyargs]
        n = len(x.args)
        bad = None
        if n > len(pos) and a.vararg is None:
            bad = '%d positional arguments given, %d accepted' % (n, len(pos))
        given = set(pos[:n])
        for k in x.keywords:
            if k.arg in given:
                bad = 'argument %s given twice' % k.arg
            elif k.arg not in pos and k.arg not in kwo and a.kwarg is None:
                bad = 'no argument is called %s' % k.arg
            given.add(k.arg)
        nd_ = len(a.defaults)
        need = pos[:len(pos) - nd_] if nd_ <= len(pos) else []
        need = need + [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        miss = [p for p in need if p not in given]
        if miss and bad is None:
            bad = 'argument %s is missing' % ', '.join(miss)
        if bad:
            self.report('signature', f.qual, x, bad)

    def unpack(self, x, f):
        want = x.targets[0].elts
        if any(isinstance(y, ast.Starred) for y in want):
            return
        if any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(f.node)):
            return
        body = [y for s in f.node.body for y in self.local(s)]
        lens = set()
        for r in body:
            if isinstance(r, ast.Return):
                if isinstance(r.value, ast.Tuple) and not any(isinstance(y, ast.Starred) for y in r.value.elts):
                    lens.add(len(r.value.elts))
                elif r.value is None or isinstance(r.value, ast.Constant):
                    lens.add(-1)
        for k in lens:
            if k != len(want):
                self.report('results', f.qual, x, '%d names are assigned from %s' % (len(want), 'no tuple' if k < 0 else '%d results' % k))


GYM = {'metadata', 'render_mode', 'reward_range', 'spec', 'action_space', 'observation_space', 'np_random', '_np_random', 'np_random_seed', 'unwrapped'}


def early(P, mod, report):
    """attributes an __init__ reads before it first assigns them (no other method assigns them, no base class has them)"""
    n = 0
    for c in P.classes:
        if c.module is not mod or P.classes[c][1]:
            continue
        ext = [getattr(b, 'name', '?') for b in c.ext_bases()]
        if any(not (b.split('.')[-1] in OPEN_BASES or b.split('.')[0] in ('gym', 'gymnasium') and b.endswith('Env')) for b in ext):
            continue
        init = c.attrs.get('__init__')
        if not isinstance(init, FuncV) or not init.node.args.args:
            continue
        me = init.node.args.args[0].arg
        reads, writes, known = {}, {}, set(GYM if ext else ())
        work = [init.node]
        while work:
            x = work.pop()
            if x is not init.node and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                (writes if isinstance(x.ctx, ast.Store) else reads).setdefault(x.attr, []).append(x)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr', 'setattr') and len(x.args) > 1 \
                    and isinstance(x.args[1], ast.Constant):
                known.add(x.args[1].value)
            work += list(ast.iter_child_nodes(x))
        meth = {}
        cls = [c] + [b for b in c.bases if isinstance(b, ClassV)]
        for k in cls:
            for y in k.node.body:
                if isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    known.add(y.name)
                    meth[y.name] = y
                elif isinstance(y, (ast.Assign, ast.AnnAssign, ast.ClassDef)):
                    known |= {z.id for z in ast.walk(y) if isinstance(z, ast.Name)} | {getattr(y, 'name', '')}
        # what methods called from __init__ assign
        todo, done = [init.node], set()
        while todo:
            y = todo.pop()
            if y in done:
                continue
            done.add(y)
            held = {z.value for z in ast.walk(y) if isinstance(z, ast.Attribute)}
            if any(isinstance(z, ast.Name) and z.id == me and z not in held for z in ast.walk(y)):
                todo += list(meth.values())         # the object itself is handed on
            for z in ast.walk(y):
                if isinstance(z, ast.Attribute) and z.attr in meth:
                    todo.append(meth[z.attr])
            if y is not init.node:
                known |= {z.attr for z in ast.walk(y) if isinstance(z, ast.Attribute) and isinstance(z.ctx, ast.Store)}
        for a, ws in writes.items():
            n += 1
            if a in known or a in P.extra or len(cls) > 1:
                continue
            first = min((w.lineno, w.col_offset) for w in ws)
            stmt = {}
            for st in ast.walk(init.node):
                if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    for z in ast.walk(st):
                        stmt[z] = st
            loops = [y for y in ast.walk(init.node) if isinstance(y, (ast.For, ast.While))]
            for r in reads.get(a, []):
                if any(stmt.get(w) is not None and stmt.get(w) is stmt.get(r) and not isinstance(stmt.get(w), ast.AugAssign) for w in ws) \
                        and all((w.lineno, w.col_offset) >= first for w in ws) and min(stmt[w].lineno for w in ws if w in stmt) == stmt[r].lineno:
                    bad = True          # self.x = ... self.x ...
                else:
                    bad = (r.lineno, r.col_offset) < first and stmt.get(r) is not stmt.get([w for w in ws if (w.lineno, w.col_offset) == first][0])
                if bad and not any(l.lineno <= r.lineno <= l.end_lineno and l.lineno <= first[0] <= l.end_lineno for l in loops):
                    report('attribute', '%s.%s' % (c.name, a), r, 'attribute %s is read before it is assigned' % a, c.name + '.__init__')
    return n


def check(P, mod, report):
    n = early(P, mod, report)
    top = Body(P, mod, None, None, lambda *a: report(*a, '<module>'))
    n += top.n
    for q, f, cls, outer in functions(mod.tree):
        cv = None
        if cls is not None and not outer:
            v = mod.env.get(cls.name)
            cv = v if isinstance(v, ClassV) and v.node is cls else None
        elif outer:
            # a nested function sees self of the method around it
            continue
        b = Body(P, mod, f, cv, lambda *a, q=q: report(*a, q))
        n += b.n
    return n

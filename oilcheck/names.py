"""Name, attribute and signature analysis over the syntax tree (rule C27).

Definite assignment is decided per function by following the syntax: a state maps every local name to the condition under
which it is still unassigned.  Conditions are sets of literals over branch tests; a test is an atom named by its text and the
versions of the names in it, so that two tests of the same unchanged names are the same atom."""
import ast
import builtins

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__path__', '__builtins__', '__annotations__',
                                 'reveal_type', '__class__'}
LIMIT = 48


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from targets(x)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)


class Scope(ast.NodeVisitor):
    """names bound in one scope (not in nested ones)"""

    def __init__(self, body, args=None):
        self.bound, self.globals, self.nonlocals, self.star = set(), set(), set(), False
        if args is not None:
            for a in args.posonlyargs + args.args + args.kwonlyargs + [x for x in (args.vararg, args.kwarg) if x]:
                self.bound.add(a.arg)
        for s in body:
            self.visit(s)
        self.bound -= self.globals | self.nonlocals

    def visit_FunctionDef(self, n):
        self.bound.add(n.name)
        for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.bound.add(n.name)

    def visit_Lambda(self, n):
        pass

    def comp(self, n):
        # walrus targets leak, the iteration variables do not
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.bound.add(x.target.id)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.bound.add(n.id)

    def visit_Import(self, n):
        for a in n.names:
            self.bound.add(a.asname or a.name.split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            if a.name == '*':
                self.star = True
            else:
                self.bound.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.bound.add(n.name)
        self.generic_visit(n)

    def visit_Global(self, n):
        self.globals |= set(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals |= set(n.names)

    def visit_MatchAs(self, n):
        if n.name:
            self.bound.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.bound.add(n.name)


# ------------------------------------------------------------------ conditions: frozenset of disjuncts, each a frozenset of (atom, bool)
FALSE_, TRUE_ = frozenset(), frozenset([frozenset()])


def conj(a, b):
    out = set()
    for x in a:
        for y in b:
            z = x | y
            if not any((k, not v) in z for k, v in z):
                out.add(z)
    return simplify(out)


def disj(a, b):
    return simplify(set(a) | set(b))


def simplify(s):
    s = set(s)
    ch = True
    while ch:
        ch = False
        for x in list(s):
            if any(y < x for y in s):
                s.discard(x)
        L = list(s)
        for i, x in enumerate(L):
            for y in L[i + 1:]:
                if len(x) == len(y):
                    d = x ^ y
                    if len(d) == 2:
                        (k1, v1), (k2, v2) = d
                        if k1 == k2 and v1 != v2:
                            s.discard(x)
                            s.discard(y)
                            s.add(x & y)
                            ch = True
                            break
            if ch:
                break
    if len(s) > LIMIT:
        raise Blowup
    return frozenset(s)


class Blowup(Exception):
    pass


class Env:
    """un: name -> condition under which it is unassigned; pc: path condition; ver: name -> version;
    flag: name -> (condition under which it is true, false)"""

    def __init__(self, un, pc, ver, flag=None):
        self.un, self.pc, self.ver, self.flag = un, pc, ver, flag or {}

    def copy(self):
        return Env(dict(self.un), self.pc, dict(self.ver), dict(self.flag))


class Flow:
    """definite assignment in one function body"""

    def __init__(self, name, body, args, outer, report, module_level=False, params=()):
        self.name, self.report = name, report
        sc = Scope(body, args)
        self.scope = sc
        self.outer = outer          # names visible from outside
        self.fresh = 0
        self.seen = set()
        bound = set(params) | ({a.arg for a in args.posonlyargs + args.args + args.kwonlyargs + [x for x in (args.vararg, args.kwarg) if x]} if args else set())
        e = Env({n: TRUE_ for n in sc.bound if n not in bound}, TRUE_, {})
        self.loops = []
        self.counter = {}       # loop counter -> (version, atom of the first iteration)
        self.entries = []       # conditions under which the loops around were entered for the first time
        self.end = self.block(body, e)

    # -- states
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        un = {}
        for n in set(a.un) | set(b.un):
            ca = conj(a.un.get(n, FALSE_), a.pc)
            cb = conj(b.un.get(n, FALSE_), b.pc)
            c = disj(ca, cb)
            if c:
                un[n] = c
        ver = dict(a.ver)
        for n in set(a.ver) | set(b.ver):
            if a.ver.get(n) != b.ver.get(n):
                self.fresh += 1
                ver[n] = ('j', self.fresh)
        flag = {}
        for n in set(a.flag) | set(b.flag):
            if a.flag.get(n) == b.flag.get(n):
                flag[n] = a.flag[n]
                continue
            fa = a.flag.get(n) or (a.un.get(n) == TRUE_ and (FALSE_, FALSE_))
            fb = b.flag.get(n) or (b.un.get(n) == TRUE_ and (FALSE_, FALSE_))
            if fa and fb:
                flag[n] = tuple(disj(conj(a.pc, x), conj(b.pc, y)) for x, y in zip(fa, fb))
        return Env(un, disj(a.pc, b.pc), ver, flag)

    def assign(self, name, e):
        e.un.pop(name, None)
        e.flag.pop(name, None)
        self.fresh += 1
        e.ver[name] = self.fresh

    def unassign(self, name, e):
        e.un[name] = TRUE_
        e.flag.pop(name, None)
        self.fresh += 1
        e.ver[name] = self.fresh

    # -- tests
    def cond(self, t, e):
        """(condition true, condition false) as formulas"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.cond(t.operand, e)
            return b, a
        if isinstance(t, ast.BoolOp):
            tt, ff = None, None
            for x in t.values:
                a, b = self.cond(x, e)
                if tt is None:
                    tt, ff = a, b
                elif isinstance(t.op, ast.And):
                    tt, ff = conj(tt, a), disj(ff, conj(tt, b))
                else:
                    tt, ff = disj(tt, conj(ff, a)), conj(ff, b)
            return tt, ff
        if isinstance(t, ast.Constant):
            return (TRUE_, FALSE_) if t.value else (FALSE_, TRUE_)
        if isinstance(t, ast.NamedExpr):
            return self.cond(t.value, e)
        if isinstance(t, ast.Name) and t.id in e.flag:
            return e.flag[t.id]
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'bool' and len(t.args) == 1:
            return self.cond(t.args[0], e)
        neg = False
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            op, l, r = t.ops[0], t.left, t.comparators[0]
            flip = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.LtE: ast.Gt, ast.GtE: ast.Lt}
            if type(op) in flip:
                op, neg = flip[type(op)](), True
            if isinstance(op, ast.Gt):
                op, l, r = ast.Lt(), r, l
            if isinstance(op, ast.In) and isinstance(r, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(x, ast.Constant) for x in r.elts):
                out = FALSE_
                for x in r.elts:
                    out = disj(out, self.cond(ast.Compare(l, [ast.Eq()], [x]), e)[0])
                no = TRUE_
                for x in r.elts:
                    no = conj(no, self.cond(ast.Compare(l, [ast.Eq()], [x]), e)[1])
                return (no, out) if neg else (out, no)
            t = ast.Compare(l, [op], [r])
            f = self.first_round(op, l, r, e)
            if f is not None:
                return (f[1], f[0]) if neg else f
        atom = self.atom(t, e)
        a, b = frozenset([frozenset([(atom, True)])]), frozenset([frozenset([(atom, False)])])
        return (b, a) if neg else (a, b)

    def first_round(self, op, l, r, e):
        """tests of a loop counter that say whether this is the first iteration"""
        for x, y, less in ((l, r, False), (r, l, True)):
            if isinstance(x, ast.Name) and isinstance(y, ast.Constant) and y.value == 0 and x.id in self.counter and self.counter[x.id][0] == e.ver.get(x.id):
                k = self.counter[x.id][1]
                a, b = frozenset([frozenset([(k, True)])]), frozenset([frozenset([(k, False)])])
                if isinstance(op, ast.Eq):
                    return a, b
                if isinstance(op, ast.Lt) and less:      # 0 < i
                    return b, a
        return None

    def atom(self, t, e):
        names = sorted({x.id for x in ast.walk(t) if isinstance(x, ast.Name)})
        if any(isinstance(x, ast.Call) for x in ast.walk(t)):
            calls = [x for x in ast.walk(t) if isinstance(x, ast.Call)]
            if not all(isinstance(x.func, ast.Attribute) and x.func.attr in ('get', 'lower', 'upper', 'strip', 'item', 'any', 'all', 'numel', 'size', 'dim')
                       or isinstance(x.func, ast.Name) and x.func.id in ('len', 'isinstance', 'hasattr', 'bool', 'int', 'float', 'str', 'abs', 'callable', 'getattr')
                       for x in calls):
                self.fresh += 1
                return ('call', self.fresh)
        attrs = any(isinstance(x, (ast.Attribute, ast.Subscript)) for x in ast.walk(t))
        return (ast.unparse(t), tuple((n, e.ver.get(n, 0)) for n in names), e.ver.get('<heap>', 0) if attrs else 0)

    def given(self, e, c):
        out = e.copy()
        out.pc = conj(e.pc, c)
        return out if out.pc else None

    # -- uses
    def use(self, name, node, e):
        if name in self.scope.globals or name in self.scope.nonlocals or name not in self.scope.bound:
            if name not in self.outer and name not in BUILTINS and name not in self.scope.globals and not self.scope.star:
                self.report('name', name, node, 'is not defined', self.name)
            return
        c = e.un.get(name)
        if not c:
            return
        if name in self.outer and self.scope is None:
            return
        both = conj(c, e.pc)
        if not both:
            return
        key = (name, node.lineno)
        if key in self.seen:
            return
        self.seen.add(key)
        always = covers(both, e.pc) or any(covers(both, x) for x in self.entries)
        kind = 'never' if always else 'loop' if all(any(self.soft(k, v) for k, v in d) or chain(d) for d in both) else 'branch'
        self.report(kind, name, node, 'is used before it is assigned' + ('' if always else ' when ' + show(both)), self.name)
        e.un.pop(name, None)

    @staticmethod
    def soft(k, v):
        """a loop without iterations, the first iteration, a caught exception"""
        return isinstance(k, tuple) and k and (k[0] == 'try' or k[0] == 'loop' and (not v or k[1] == 'first'))

    def expr(self, x, e):
        if x is None:
            return
        if isinstance(x, ast.Name):
            if isinstance(x.ctx, ast.Load):
                self.use(x.id, x, e)
            return
        if isinstance(x, ast.IfExp):
            self.expr(x.test, e)
            a, b = self.cond(x.test, e)
            for c, y in ((a, x.body), (b, x.orelse)):
                g = self.given(e, c)
                if g is not None:
                    self.expr(y, g)
            return
        if isinstance(x, ast.BoolOp):
            cur = e
            for v in x.values:
                if cur is None:
                    return
                self.expr(v, cur)
                a, b = self.cond(v, cur)
                cur = self.given(cur, a if isinstance(x.op, ast.And) else b)
            return
        if isinstance(x, ast.NamedExpr):
            self.expr(x.value, e)
            self.assign(x.target.id, e)
            return
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = e.copy()
            hidden = []
            names = {n for g in x.generators for n in targets(g.target)}
            sub = Inner(self, names)
            for g in x.generators:
                sub.expr(g.iter, inner)
                for i in g.ifs:
                    sub.expr(i, inner)
                    gi = self.given(inner, self.cond(i, inner)[0])
                    inner = gi if gi is not None else inner
            for y in ([x.elt] if not isinstance(x, ast.DictComp) else [x.key, x.value]):
                sub.expr(y, inner)
            return
        if isinstance(x, ast.Lambda):
            for d in x.args.defaults + [y for y in x.args.kw_defaults if y]:
                self.expr(d, e)
            names = {a.arg for a in x.args.posonlyargs + x.args.args + x.args.kwonlyargs + [y for y in (x.args.vararg, x.args.kwarg) if y]}
            sub = Inner(self, names, late=True)
            sub.expr(x.body, e.copy())
            return
        for y in ast.iter_child_nodes(x):
            if isinstance(y, ast.expr):
                self.expr(y, e)
            elif isinstance(y, ast.keyword):
                self.expr(y.value, e)
            elif isinstance(y, ast.comprehension):
                pass
        if isinstance(x, (ast.Call, ast.Await)):
            self.touch(x, e)

    def touch(self, x, e):
        """a call may change what attributes hold"""
        f = x.func if isinstance(x, ast.Call) else None
        pure = isinstance(f, ast.Name) and f.id in ('len', 'isinstance', 'hasattr', 'bool', 'int', 'float', 'str', 'abs', 'print', 'range', 'min', 'max', 'getattr',
                                                    'callable', 'zip', 'enumerate', 'sum', 'round', 'list', 'tuple', 'dict', 'set', 'sorted') or \
            isinstance(f, ast.Attribute) and (f.attr in ('get', 'lower', 'upper', 'item', 'strip', 'format', 'join', 'split') or
                                              isinstance(f.value, ast.Name) and f.value.id in ('torch', 'np', 'math', 'numpy', 'os', 'time', 'json'))
        if not pure:
            self.fresh += 1
            e.ver['<heap>'] = self.fresh

    def store(self, t, e):
        if isinstance(t, ast.Name):
            self.assign(t.id, e)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, e)
        elif isinstance(t, ast.Starred):
            self.store(t.value, e)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            self.expr(t.value, e)
            if isinstance(t, ast.Subscript):
                self.expr(t.slice, e)
            self.fresh += 1
            e.ver['<heap>'] = self.fresh

    # -- statements: return the state at the end (None: not reached)
    def block(self, body, e):
        for s in body:
            if e is None:
                return None
            try:
                e = self.stmt(s, e)
            except Blowup:
                # too many cases: forget the correlations, keep what is certain
                e = Env({n: c for n, c in e.un.items() if c == TRUE_}, TRUE_, e.ver)
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        self.assign(x.id, e)
        return e

    def stmt(self, s, e):
        if isinstance(s, ast.Assign):
            self.expr(s.value, e)
            v = s.value
            fl = None
            if isinstance(v, (ast.Compare, ast.BoolOp)) or isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) or \
                    isinstance(v, ast.Constant) and (v.value is None or isinstance(v.value, bool)) or isinstance(v, ast.Name) and v.id in e.flag:
                fl = self.cond(v, e)
            for t in s.targets:
                self.store(t, e)
                if fl is not None and isinstance(t, ast.Name):
                    e.flag[t.id] = fl
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value, e)
                self.store(s.target, e)
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value, e)
            if isinstance(s.target, ast.Name):
                self.use(s.target.id, s.target, e)
            self.store(s.target, e)
        elif isinstance(s, ast.If):
            self.expr(s.test, e)
            a, b = self.cond(s.test, e)
            x, y = self.given(e, a), self.given(e, b)
            x = self.block(s.body, x) if x is not None else None
            y = self.block(s.orelse, y) if y is not None else None
            return self.join(x, y)
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            return self.loop(s, e)
        elif isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            return self.trystmt(s, e)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, e)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, e)
            return self.block(s.body, e)
        elif isinstance(s, (ast.Return,)):
            self.expr(s.value, e)
            return None
        elif isinstance(s, ast.Raise):
            self.expr(s.exc, e)
            self.expr(s.cause, e)
            return None
        elif isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1][0] = self.join(self.loops[-1][0], e)
            return None
        elif isinstance(s, ast.Continue):
            if self.loops:
                self.loops[-1][1] = self.join(self.loops[-1][1], e)
            return None
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x]:
                self.expr(d, e)
            self.assign(s.name, e)
        elif isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases:
                self.expr(d, e)
            self.assign(s.name, e)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                if a.name != '*':
                    self.assign(a.asname or a.name.split('.')[0], e)
        elif isinstance(s, ast.Assert):
            self.expr(s.test, e)
            if s.msg is not None:
                self.expr(s.msg, e)
            return self.given(e, self.cond(s.test, e)[0])
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.use(t.id, t, e)
                    self.unassign(t.id, e)
                else:
                    self.store(t, e)
        elif isinstance(s, ast.Expr):
            self.expr(s.value, e)
            v = s.value
            if isinstance(v, ast.Call) and ast.unparse(v.func) in ('sys.exit', 'exit', 'quit', 'os._exit'):
                return None
        elif isinstance(s, ast.Match):
            self.expr(s.subject, e)
            out = None
            rest = e
            for cs in s.cases:
                self.fresh += 1
                k = ('case', self.fresh)
                g = self.given(rest, frozenset([frozenset([(k, True)])]))
                for x in ast.walk(cs.pattern):
                    if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                        self.assign(x.name, g)
                if cs.guard is not None:
                    self.expr(cs.guard, g)
                out = self.join(out, self.block(cs.body, g))
                wild = isinstance(cs.pattern, ast.MatchAs) and cs.pattern.pattern is None and cs.guard is None
                rest = None if wild else self.given(rest, frozenset([frozenset([(k, False)])]))
                if rest is None:
                    break
            return self.join(out, rest)
        return e

    def loop(self, s, e):
        wh = isinstance(s, ast.While)
        if not wh:
            self.expr(s.iter, e)
        self.fresh += 1
        k = ('loop', self.fresh)
        enter, skip = frozenset([frozenset([(k, True)])]), frozenset([frozenset([(k, False)])])
        certain = False
        if wh and isinstance(s.test, ast.Constant) and s.test.value:
            certain = True
        if not wh and isinstance(s.iter, (ast.Tuple, ast.List)) and s.iter.elts:
            certain = True
        if not wh and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and s.iter.args and \
                all(isinstance(x, ast.Constant) for x in s.iter.args):
            try:
                certain = len(range(*[x.value for x in s.iter.args])) > 0
            except TypeError:
                pass
        # names the body writes have unknown values in a later iteration
        written = set()
        for x in s.body:
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)):
                    written.add(y.id)
        if not wh:
            written |= set(targets(s.target))
        base = e.copy()
        for n in written:
            self.fresh += 1
            base.ver[n] = self.fresh
            base.flag.pop(n, None)
        self.fresh += 1
        base.ver['<heap>'] = self.fresh
        if wh:
            self.expr(s.test, base)
        b = base.copy()
        if not certain:
            b = self.given(b, enter)
        # what the body assigns is unassigned in the first iteration only
        first = frozenset([frozenset([(('loop', 'first', k[1]), True)])])
        if b is not None:
            for n in written:
                if n in b.un:
                    b.un[n] = conj(b.un[n], first)
            self.entries.append(conj(b.pc, first))
        b0 = b
        if wh and b is not None:
            g = self.given(b, self.cond(s.test, b)[0])
            b = g
        if not wh:
            self.store(s.target, b)
            f = s.iter.func.id if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) else ''
            t = s.target
            if f == 'enumerate' and isinstance(t, ast.Tuple) and len(s.iter.args) == 1 and not s.iter.keywords:
                t = t.elts[0]
            elif f != 'range' or not (len(s.iter.args) == 1 or isinstance(s.iter.args[0], ast.Constant) and s.iter.args[0].value == 0):
                t = None
            if isinstance(t, ast.Name):
                self.counter[t.id] = (b.ver[t.id], ('loop', 'first', k[1]))
        self.loops.append([None, None])
        end = self.block(s.body, b) if b is not None else None
        brk, cont = self.loops.pop()
        if b0 is not None:
            self.entries.pop()
        end = self.join(end, cont)
        # leaving the loop normally: after at least one iteration, or without any
        none = None if certain else self.given(base, skip)
        if wh and isinstance(s.test, ast.Constant) and s.test.value:
            out = None
        else:
            out = self.join(end, none)
            if out is not None:
                out = out.copy()
                for n in written | {'<heap>'}:
                    self.fresh += 1
                    out.ver[n] = self.fresh
                    out.flag.pop(n, None)
        if s.orelse and out is not None:
            out = self.block(s.orelse, out)
        return self.join(out, brk)

    def trystmt(self, s, e):
        self.fresh += 1
        k = ('try', self.fresh)
        start = e.copy()
        end = self.block(s.body, e.copy())
        if end is not None:
            end = self.block(s.orelse, end)
        # an exception may come from anywhere in the body: names it assigns may be assigned or not
        written = {y.id for x in s.body for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        h0 = self.given(start, frozenset([frozenset([(k, True)])]))
        for n in written:
            self.fresh += 1
            h0.ver[n] = self.fresh
            h0.flag.pop(n, None)
        self.fresh += 1
        h0.ver['<heap>'] = self.fresh
        out = end
        for h in s.handlers:
            x = h0.copy()
            if h.type is not None:
                self.expr(h.type, x)
            if h.name:
                self.assign(h.name, x)
            x = self.block(h.body, x)
            if x is not None and h.name:
                self.unassign(h.name, x)
            out = self.join(out, x)
        if s.finalbody:
            f = out if out is not None else h0.copy()
            r = self.block(s.finalbody, f)
            return r if out is not None else None
        return out


class Inner:
    """expressions with names of their own (comprehensions, lambdas)"""

    def __init__(self, flow, names, late=False):
        self.flow, self.names, self.late = flow, names, late

    def expr(self, x, e):
        f = self.flow
        old, f.use = f.use, self.use
        self.old = old
        try:
            f.expr(x, e)
        finally:
            f.use = old

    def use(self, name, node, e):
        if name in self.names:
            return
        if self.late and name in self.flow.scope.bound:
            return
        self.old(name, node, e)


def chain(d):
    """two or more failed comparisons of one thing with constants: perhaps all the values it can have"""
    n = {}
    for k, v in d:
        if not v and isinstance(k[0], str) and ' == ' in k[0]:
            a, b = k[0].split(' == ', 1)
            n.setdefault((a, k[1:]), set()).add(b)
    return any(len(x) > 1 for x in n.values())


def covers(both, pc):
    """pc implies both"""
    return all(any(y <= x for y in both) for x in pc)


def show(c):
    def one(d):
        return ' and '.join(('' if v else 'not ') + (str(k[0]) if not isinstance(k[0], str) or k[0] not in ('loop', 'try', 'call', 'case') else
                                                    {'loop': 'the loop runs', 'try': 'an exception is caught', 'call': '(a call)', 'case': 'the case matches'}[k[0]])
                            for k, v in sorted(d, key=str)) or 'always'
    return ' or '.join(one(d) for d in sorted(c, key=str)[:3])


def functions(tree):
    """(qualified name, node, enclosing class or None, enclosing functions)"""
    def go(body, prefix, cls, outer):
        for s in body:
            yield from item(s, prefix, cls, outer)

    def item(s, prefix, cls, outer):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield prefix + s.name, s, cls, outer
            yield from go(s.body, prefix + s.name + '.', None, outer + [s])
        elif isinstance(s, ast.ClassDef):
            yield from go(s.body, prefix + s.name + '.', s, outer)
        else:
            for x in ast.iter_child_nodes(s):
                if isinstance(x, (ast.stmt, ast.ExceptHandler, ast.match_case)):
                    yield from item(x, prefix, cls, outer)
    yield from go(tree.body, '', None, [])


def assignment(tree, report, extra=()):
    """definite assignment in every scope of a module"""
    top = Scope(tree.body)
    glob = set(top.bound) | {n for x in ast.walk(tree) if isinstance(x, ast.Global) for n in x.names} | set(extra)
    Flow('<module>', tree.body, None, glob, report)
    n = 1
    for q, f, cls, outer in functions(tree):
        vis = set(glob)
        if top.star:
            continue
        for o in outer:
            vis |= Scope(o.body, o.args).bound
        if cls is not None:
            vis.add('__class__')
        Flow(q, f.body, f.args, vis, report)
        n += 1
    for x in ast.walk(tree):
        if isinstance(x, ast.ClassDef):
            Flow(x.name + ' (class body)', [s for s in x.body if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef))], None,
                 glob | {s.name for s in x.body if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef))}, report)
    return n

"""Effects and program-wide rules: C20 C21 C27 C28."""
import ast
from fractions import Fraction as Fr
from .. import nodes as nd
from ..nodes import num, sym, string, mk, ZERO, ONE, TRUE, FALSE, NONE, N
from ..world import World, scalar, grid, dict_, DT
from ..values import Ref, OC, UnionV, FuncV, ClassV
from .. import names, typed
from ..interp import AnalysisError, PathDead
from ..ri import equiv
from ..lib import guarded, Broken, locate, clip, short
from .solver import Amg, Calls, T, bare, forks, CONFIGS
from .flow import SRC
from .state import PROD, Run, assume_all


def at(e):
    return '%s:%d (%s)' % (short(e.path), e.line, e.func)


def closure(ip, st, locs):
    """the locations given and those they may share storage with"""
    out = set()
    for l in locs:
        if l not in out:
            out |= ip.roots(st, Ref(l))
    return out


# ---------------------------------------------------------------------------- C20
def C20(c):
    c.rule('inputs', 'no in-place update made by a solver, or by a function it is made of, reaches the storage of a matrix, right-hand side, preconditioner, '
                     'start vector or other array it was given')
    c.rule('previous state', 'no in-place update of the current state reaches the storage of a previous-step state kept by the fluid')
    c.rule('rollback', 'a state restored from a kept copy is not updated in place before the copy is needed again')
    for pre in (True, False):
        for start in (True, False):
            lab = 'conjugate gradients, %s preconditioner, %s start vector' % ('with' if pre else 'no', 'given' if start else 'no')
            guarded(c, 'inputs', lab, c20_cg, c, pre, start, lab)
    guarded(c, 'inputs', 'amg_solve', c20_amg_solve, c)
    guarded(c, 'inputs', 'amg_preconditioner', c20_prec, c)
    for lab, kw, last in CONFIGS:
        guarded(c, 'inputs', 'multigrid, ' + lab, c20_amg, c, lab, kw)
    for nm in ('find_strong_connections', 'classical_coarsening', 'build_prolongation_rs_full', 'rap_onepoint_gpu', '_csr_spmm', 'rap_torch',
               '_apply_reference_fix', 'orthonormalize_columns', '_extract_diag_cpu', 'generate_nullspace', 'solve_energy_weights'):
        guarded(c, 'inputs', nm, c20_func, c, nm)
    for sv in ('impes', 'fully_implicit'):
        for pvt in (False, True):
            if pvt and sv != 'impes':
                continue
            lab = '%s, %s' % ({'impes': 'sequential', 'fully_implicit': 'fully implicit'}[sv], 'tables' if pvt else 'no tables')
            guarded(c, 'previous state', lab, c20_prev, c, sv, pvt, lab)


def writes(c, rule, lab, ip, st, given, n0):
    """in-place updates since event n0 that reach the storage of what was given: {name: location}"""
    evs = [e for e in ip.events[n0:] if e.kind == 'mutate']
    seen = set()
    for nm, loc in given.items():
        bad = None
        for e in evs:
            if loc in closure(ip, st, e.args[0]):
                bad = e
                break
        c.ok(rule, '%s: %s' % (lab, nm), bad is None, bad and 'updated in place (%s)' % bad.name, bad and at(bad))


def c20_cg(c, pre, start, lab):
    w = bare()
    ip, st = w.ip, w.st.fork()
    f = w.method(w.sim, '_solve_pressure_cg_pytorch')
    given = {k: T(ip, st, sym(k)) for k in ('A', 'b') + (('M',) if pre else ()) + (('x0',) if start else ())}
    n0 = len(ip.events)
    ip.run_exits(f, [w.sim, given['A'], given['b']], {'tol': scalar('tol'), 'max_iter': scalar('maxit'), 'x0': given.get('x0', NONE),
                                                     'M_diag': given.get('M', NONE)}, st)
    c.absorb(ip)
    writes(c, 'inputs', lab, ip, st, {k: v.loc for k, v in given.items()}, n0)


def opaque_hierarchy():
    """the functions around the hierarchy class; what its methods do to their arguments is decided on the class itself"""
    q = Calls()
    n = [0]

    def apply(ip, st, args, kw):
        n[0] += 1
        return ip.tensor(st, sym('applied', n[0]), None)
    q.ip.stubs['ClassicalAMG.apply'] = apply
    return q


def c20_amg_solve(c):
    q = opaque_hierarchy()
    ip, st = q.ip, q.st
    n0 = len(ip.events)
    given = {}
    for i in (1, 2):
        A, b = T(ip, st, sym('mat', 'A%d' % i, 300, 300)), T(ip, st, sym('b%d' % i))
        given.update({'matrix of call %d' % i: A.loc, 'right-hand side of call %d' % i: b.loc})
        ip.call_func(q.f, [A, b], {'tol': scalar('tol'), 'max_cycles': num(3), 'device': string('cpu')}, st, None)
    c.absorb(ip)
    writes(c, 'inputs', 'amg_solve', ip, st, given, n0)


def c20_prec(c):
    q = opaque_hierarchy()
    ip, st = q.ip, q.st
    f = q.w.find_func('amg_preconditioner')
    A, r = T(ip, st, sym('mat', 'A', 300, 300)), T(ip, st, sym('r'))
    n0 = len(ip.events)
    v = ip.call_func(f, [A], {'device': string('cpu')}, st, None)
    ap = ip.getitem(v, string('apply'), st, None)
    ip.call(ap, [r], {}, st, None)
    c.absorb(ip)
    writes(c, 'inputs', 'amg_preconditioner', ip, st, {'matrix': A.loc, 'vector': r.loc}, n0)


def c20_amg(c, lab, kw):
    def make(d):
        g = Amg(decisions=d, **kw)
        ip, st = g.ip, g.st
        g.n0 = len(ip.events)
        g.given = {}

        def arg(nm, n):
            t = T(ip, st, n)
            g.given[nm] = t.loc
            return t
        o = ip.instantiate(g.cls, [arg('matrix', g.matrix('A'))], {'max_levels': num(g.max_levels), 'coarsest_size': num(g.coarsest)}, st, None)

        def m(nm, *a, **k):
            f = g.cls.lookup(nm)
            if f is None:
                raise AnalysisError('method %s was not found' % nm)
            return ip.call_func(f, [o] + list(a), k, st, None)
        m('solve', arg('right-hand side', sym('b')), x0=arg('start vector', sym('x0')), max_iter=num(2), tol=scalar('tol'))
        m('solve', arg('right-hand side without start', sym('b3')), max_iter=num(2), tol=scalar('tol'))
        m('apply', arg('vector', sym('r')), cycles=num(2))
        g.k = 0
        m('update_matrix', arg('new matrix', g.matrix('B')))
        m('solve', arg('right-hand side after refresh', sym('b2')), max_iter=num(2), tol=scalar('tol'))
        return g
    for g, tag in forks(make):
        if not g.together():
            continue
        c.absorb(g.ip)
        writes(c, 'inputs', 'multigrid, %s%s' % (lab, tag and ', ' + tag), g.ip, g.st, g.given, g.n0)


def c20_func(c, nm):
    w = bare()
    try:
        f = w.find_func(nm)
    except AnalysisError:
        return      # an internal function: it may be gone
    ip, st = w.ip, w.st.fork()
    given, args = {}, []
    a = f.node.args
    for x in a.posonlyargs + a.args:
        ann = getattr(x.annotation, 'id', '') if x.annotation is not None else ''
        n = sym('arg', x.arg)
        if ann in ('int', 'float', 'bool', 'str'):
            nd.SHAPES[n] = 'scalar'
            args.append(n)
        else:
            t = T(ip, st, n)
            given[x.arg] = t.loc
            args.append(t)
    n0 = len(ip.events)
    ip.run_exits(f, args, {}, st)
    c.absorb(ip)
    writes(c, 'inputs', nm, ip, st, given, n0)


def attrs(w, st):
    return {(nm, a): v for nm, r in w.objs() for a, v in st.heap[r.loc].attrs.items() if isinstance(v, (Ref, UnionV))}


def refs(v):
    if isinstance(v, UnionV):
        return refs(v.a) + refs(v.b)
    return [v] if isinstance(v, Ref) else []


def locs(w, st, v):
    out = set()
    for r in refs(v):
        if w.ip.is_tensor(st, r):
            out |= w.ip.roots(st, r)
    return out


def forget(w, st):
    '''any values of the stored fields: the storage they are in stays'''
    for (nm, a), v in attrs(w, st).items():
        for r in refs(v):
            if w.ip.is_tensor(st, r):
                n = w.ip.node(st, r)
                if n.op != 'sym':
                    s = sym('now', nm, a)
                    if nd.shape_of(n) is not None:
                        nd.SHAPES[s] = nd.shape_of(n)
                    w.ip.set_tensor(st, r, s)


STATE = ('pressure', 's_w', 's_g', 's_o')


def is_prev(a):
    return a.startswith(('prev', 'old', 'last')) or a.endswith(('_prev', '_old', '_last', '_n'))


def c20_prev(c, sv, pvt, lab):
    w = World(pvt=pvt, wells=PROD, solver=sv, sources=SRC, freeze=False, converged=None)
    ip, st = w.ip, w.st
    for rnd in ('first step', 'second step'):
        fl = {a: v for (nm, a), v in attrs(w, st).items() if nm == 'fluid'}
        shared = {}
        for a, v in fl.items():
            if not is_prev(a):
                continue
            la = locs(w, st, v)
            for s in STATE:
                if s in fl:
                    shared[a, s] = la & locs(w, st, fl[s])
        forget(w, st)
        n0, k0 = len(ip.events), len(ip.backedges)
        w.step_raw(st, DT)
        evs = [e for e in ip.events[n0:] if e.kind == 'mutate']
        names = {r.loc: nm for nm, r in w.objs()}
        for (a, s), both in shared.items():
            bad = [e for e in evs if both and closure(ip, st, e.args[0]) & both]
            c.ok('previous state', '%s, %s: %s and %s' % (lab, rnd, a, s), not bad,
                 bad and 'both are stored in the same array, which is updated in place (%s)' % bad[0].name, bad and at(bad[0]))
        n = 0
        for lid, key, x, z, before, pc in ip.backedges[k0:]:
            if key[0] == 'e' or names.get(key[1]) != 'fluid' or not before:
                continue
            n += 1
            # updates on the way to the next attempt
            bad = [e for e in evs if not any(nd.notn(l) in pc for l in e.pc) and z.loc in closure(ip, st, e.args[0])]
            c.ok('rollback', '%s, %s: %s' % (lab, rnd, key[2]), not bad,
                 bad and 'a kept state becomes the current one and is then updated in place (%s)' % bad[0].name, bad and at(bad[0]))
        if not n:
            c.add('rollback', '%s, %s: no kept array becomes the current state of another attempt' % (lab, rnd), 'proved')
    c.absorb(ip)



# ---------------------------------------------------------------------------- C21
TORCH_DRAWS = {'rand', 'randn', 'randint', 'randperm', 'normal', 'bernoulli', 'multinomial', 'poisson', 'rand_like', 'randn_like', 'randint_like',
               'rrelu', 'dropout', 'lobpcg', 'svd_lowrank', 'pca_lowrank'}
INPLACE = {'uniform_', 'normal_', 'random_', 'bernoulli_', 'exponential_', 'geometric_', 'cauchy_', 'log_normal_'}
METHODS = INPLACE | {'bernoulli', 'multinomial'}
CLOCKS = ('time.', 'datetime.', 'os.urandom', 'os.getpid', 'uuid.', 'secrets.')
NP_OK = {'default_rng', 'RandomState', 'Generator', 'SeedSequence', 'PCG64', 'MT19937', 'Philox', 'SFC64', 'BitGenerator', 'get_state', 'set_state', 'seed'}
PY_OK = {'Random', 'seed', 'getstate', 'setstate', 'SystemRandom'}
POSITIVE = """
import torch, random, time
import numpy as np
from numpy.random import rand as draw
def a(): return torch.rand(3)
def b(): return np.random.rand(3)
def c(): return random.random()
def d(): return draw()
def e(): return torch.zeros(3).uniform_()
def f():
    g = torch.Generator(); g.seed()
    return torch.rand(3, generator=g)
def g(): return np.random.default_rng().random()
def h(): return np.random.default_rng(int(time.time())).random()
G = torch.Generator()
def i(): return torch.rand(3, generator=G)
def j():
    f = torch.rand
    return f(3)
def k(): return torch.rand(3, generator=None)
"""
NEGATIVE = """
import torch, random, time
import numpy as np
def a():
    g = torch.Generator(device='cpu').manual_seed(3)
    return torch.rand(3, generator=g)
def b():
    g = torch.Generator(); g.manual_seed(0)
    return torch.zeros(3).uniform_(generator=g)
def c(): return np.random.default_rng(7).random()
def d():
    r = random.Random(1)
    return r.random()
def e():
    torch.manual_seed(5)
    return torch.rand(3)
def f(x): return x.random, x.normal, time.time()
def g(n):
    gen = torch.Generator()
    gen.manual_seed(n * 7 + 1)
    out = []
    for i in range(n):
        out.append(torch.randn(3, generator=gen))
    return out
"""


class Draws:
    """random draws of one module and where their numbers come from"""

    def __init__(self, tree, report):
        self.report = report            # (function, node, status, text)
        self.names = {}
        for x in ast.walk(tree):
            if isinstance(x, ast.Import):
                for a in x.names:
                    self.names[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(x, ast.ImportFrom) and x.module and not x.level:
                for a in x.names:
                    self.names[a.asname or a.name] = x.module + '.' + a.name
        self.tree = tree
        self.sites = 0
        self.modgens = {}
        self.scope('<module>', tree.body, None)
        for q, f, cls, outer in names.functions(tree):
            self.scope(q, f.body, f)
        for x in ast.walk(tree):
            if isinstance(x, ast.Lambda):
                pass        # bodies of lambdas belong to the scope they are written in

    def local(self, body):
        work = list(reversed(body))
        while work:
            x = work.pop()
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                work += list(reversed(x.decorator_list + x.args.defaults + [d for d in x.args.kw_defaults if d]))
                continue
            if isinstance(x, ast.ClassDef):
                work += [y for y in reversed(x.body) if not isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef))]
                continue
            yield x
            work += list(reversed(list(ast.iter_child_nodes(x))))

    def dotted(self, e):
        if isinstance(e, ast.Name):
            if e.id in self.alias:
                return self.alias[e.id]
            if e.id in self.stored:
                return None
            return self.names.get(e.id)
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value)
            return b and self.norm(b + '.' + e.attr)
        return None

    @staticmethod
    def norm(n):
        return n

    def scope(self, q, body, f):
        self.q = q
        self.alias, self.stored, self.gens = {}, set(), {}
        self.fn = f
        nodes = list(self.local(body))
        if f is not None:
            a = f.args
            self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            # a generator made once for all calls
            ps = a.posonlyargs + a.args
            for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if isinstance(d, ast.Call) and self.maker(d):
                    self.gens[p.arg] = ('shared', d)
            self.stored |= self.params
        else:
            self.params = set()
        for x in nodes:
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                self.stored.add(x.id)
        if f is None:
            # module level: imported names are not shadowed by themselves
            self.stored -= set(self.names)
        count = {}
        for x in nodes:
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                count[x.id] = count.get(x.id, 0) + 1
        again = {x for x in nodes if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Call)
                 and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == 'manual_seed' and isinstance(x.value.func.value, ast.Name)
                 and x.value.func.value.id == x.targets[0].id}
        for x in again:
            count[x.targets[0].id] -= 1
        for x in nodes:
            if isinstance(x, ast.Assign) and x not in again and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and count.get(x.targets[0].id) == 1:
                n = x.targets[0].id
                if isinstance(x.value, (ast.Name, ast.Attribute)):
                    d = self.dotted(x.value)
                    if d:
                        self.alias[n] = d
                elif isinstance(x.value, ast.Call):
                    if self.maker(x.value):
                        self.gens[n] = ('local' if f is not None else 'shared', x.value)
                    elif isinstance(x.value.func, ast.Attribute) and self.maker(x.value.func.value):
                        self.gens[n] = ('local' if f is not None else 'shared', x.value)
        if f is None:
            self.modgens = dict(self.gens)
        self.seeded = sorted((x.lineno for x in nodes if isinstance(x, ast.Call) and self.dotted(x.func) in ('torch.manual_seed',) and x.args and
                              not self.clock(x.args[0])))
        self.npseeded = sorted((x.lineno for x in nodes if isinstance(x, ast.Call) and self.dotted(x.func) in ('numpy.random.seed',) and x.args and
                                not self.clock(x.args[0]) and not none(x.args[0])))
        self.pyseeded = sorted((x.lineno for x in nodes if isinstance(x, ast.Call) and self.dotted(x.func) in ('random.seed',) and x.args and
                                not self.clock(x.args[0]) and not none(x.args[0])))
        self.nodes = nodes
        for x in nodes:
            if isinstance(x, ast.Call):
                self.call(x)

    def clock(self, e):
        for y in ast.walk(e):
            if isinstance(y, (ast.Name, ast.Attribute)):
                d = self.dotted(y)
                if d and (d + '.').startswith(CLOCKS):
                    return True
            if isinstance(y, ast.Name) and y.id in self.stored and y.id not in self.params:
                for z in self.nodes_of(y.id):
                    if any(isinstance(w, (ast.Name, ast.Attribute)) and ((self.dotted(w) or '') + '.').startswith(CLOCKS) for w in ast.walk(z)):
                        return True
        return False

    def nodes_of(self, n):
        return [x.value for x in getattr(self, 'nodes', ()) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in x.targets)]

    def maker(self, e):
        """a call that makes a generator (possibly followed by .manual_seed(...))"""
        if not isinstance(e, ast.Call):
            return None
        d = self.dotted(e.func)
        if d in ('torch.Generator', 'numpy.random.default_rng', 'numpy.random.RandomState', 'numpy.random.Generator', 'random.Random', 'random.SystemRandom'):
            return d
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('manual_seed',) and isinstance(e.func.value, ast.Call):
            return self.maker(e.func.value)
        return None

    def origin(self, e):
        """(status, why) of the generator expression e"""
        if none(e):
            return 'violated', 'no generator is given, so the global one is used'
        if isinstance(e, ast.Name):
            if e.id in self.gens:
                kind, call = self.gens[e.id]
                if kind == 'shared' and self.q != '<module>':
                    return 'violated', 'the generator is shared by all calls'
                return self.made(call, e.id)
            if e.id in self.params:
                a = self.fn.args
                ps = a.posonlyargs + a.args
                dv = dict(zip([p.arg for p in ps[len(ps) - len(a.defaults):]], a.defaults))
                dv.update((p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None)
                if e.id in dv and none(dv[e.id]):
                    return 'undecided', 'the global generator is used unless the caller gives one'
                return 'ok', ''
            if e.id not in self.stored and e.id in self.modgens:
                return 'violated', 'the generator belongs to the module and is shared by all calls'
            return 'undecided', 'the generator %s was not followed' % e.id
        if isinstance(e, ast.Call) and self.maker(e):
            return self.made(e, None)
        if self.dotted(e) in ('torch.default_generator',):
            return 'violated', 'the global generator is used'
        return 'undecided', 'the generator was not followed'

    def made(self, call, name):
        d = self.maker(call) or self.maker(call.func.value)
        if d == 'random.SystemRandom':
            return 'violated', 'numbers of the operating system'
        chain = isinstance(call.func, ast.Attribute) and call.func.attr == 'manual_seed' and isinstance(call.func.value, ast.Call)
        if isinstance(call.func, ast.Attribute) and call.func.attr == 'seed' and isinstance(call.func.value, ast.Call):
            return 'violated', 'the generator is seeded from the operating system'
        seeds = []
        if chain:
            seeds = list(call.args)
        elif d != 'torch.Generator':
            seeds = list(call.args) + [k.value for k in call.keywords if k.arg in ('seed', 'x')]
            later = [x for x in self.nodes if name and isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'seed' and
                     isinstance(x.func.value, ast.Name) and x.func.value.id == name and x.args]
            seeds += [y for x in later for y in x.args]
            if not seeds or any(none(s) for s in seeds):
                return 'violated', 'the generator is not seeded'
            if d == 'numpy.random.Generator':
                for s in seeds:
                    if isinstance(s, ast.Call) and not s.args and not s.keywords:
                        return 'violated', 'the generator is not seeded'
        if name:
            for x in self.nodes:
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == name:
                    if x.func.attr == 'seed' and not x.args and d == 'torch.Generator':
                        return 'violated', 'the generator is seeded from the operating system'
                    if x.func.attr == 'manual_seed':
                        seeds += list(x.args)
        if any(self.clock(s) for s in seeds):
            return 'violated', 'the seed depends on the clock or the operating system'
        for s in seeds:
            for y in ast.walk(s):
                if isinstance(y, ast.Call) and (self.dotted(y.func) or '').startswith(('torch.seed', 'torch.initial_seed', 'random.', 'numpy.random.')) \
                        or isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ('id', 'hash'):
                    return 'violated', 'the seed depends on global state'
        return 'ok', ''

    def call(self, x):
        d = self.dotted(x.func)
        gen = [k.value for k in x.keywords if k.arg == 'generator']
        if d and d.startswith('torch.') and d.split('.')[-1] in TORCH_DRAWS and d.count('.') <= 2 or d and d.startswith('torch.nn.init.'):
            self.sites += 1
            if gen:
                s, why = self.origin(gen[0])
                self.put(x, s, why, d)
            elif any(l < x.lineno for l in self.seeded):
                self.put(x, 'ok', '', d)
            else:
                self.put(x, 'violated', 'draws from the global generator', d)
            return
        if d and d.startswith('numpy.random.') and d.count('.') == 2:
            n = d.split('.')[-1]
            if n not in NP_OK:
                self.sites += 1
                self.put(x, *(('ok', '') if any(l < x.lineno for l in self.npseeded) else ('violated', 'draws from the global generator')), d)
            return
        if d and d.startswith('random.') and d.count('.') == 1:
            n = d.split('.')[-1]
            if n not in PY_OK:
                self.sites += 1
                self.put(x, *(('ok', '') if any(l < x.lineno for l in self.pyseeded) else ('violated', 'draws from the global generator')), d)
            return
        if d and (d.startswith('secrets.') or d in ('os.urandom', 'uuid.uuid4')):
            self.sites += 1
            self.put(x, 'undecided', 'numbers of the operating system', d)
            return
        if isinstance(x.func, ast.Attribute) and d is None:
            v = x.func.value
            if isinstance(v, ast.Name) and (v.id in self.gens or v.id not in self.stored and v.id in self.modgens):
                kind, call = self.gens.get(v.id) or self.modgens[v.id]
                mk_ = self.maker(call)
                if mk_ and mk_ != 'torch.Generator' and x.func.attr not in ('seed', 'manual_seed'):
                    self.sites += 1
                    s, why = self.origin(v)
                    self.put(x, s, why, ast.unparse(x.func))
                return
            if isinstance(v, ast.Call) and self.maker(v) and self.maker(v) != 'torch.Generator':
                self.sites += 1
                s, why = self.made(v, None)
                self.put(x, s, why, ast.unparse(x.func))
                return
            if x.func.attr in INPLACE:
                self.sites += 1
                if gen:
                    s, why = self.origin(gen[0])
                    self.put(x, s, why, x.func.attr)
                elif any(l < x.lineno for l in self.seeded):
                    self.put(x, 'ok', '', x.func.attr)
                else:
                    self.put(x, 'violated', 'draws from the global generator', x.func.attr)
            elif x.func.attr in METHODS and not gen:
                self.sites += 1
                self.put(x, 'undecided', 'may draw from the global generator', x.func.attr)

    def put(self, x, s, why, what):
        self.report(self.q, x, s, why, what)


def none(e):
    return isinstance(e, ast.Constant) and e.value is None


def C21(c):
    c.rule('draws', 'each random draw in the sources takes its numbers from a generator made in the same call with a seed that depends on nothing but its arguments '
                    '(or after a fixed global seed in the same function)')
    c.rule('fields', 'no random number, clock reading or object identity reaches a state field, a balance, the success flag, saved arrays or pictures, or what the environment returns')
    c.rule('self test', 'the rule finds the draws of a small module which have to be reported, and no others')
    w = World(pvt=False, freeze=False)
    c.absorb(w.ip)
    bad, good = set(), set()
    Draws(ast.parse(POSITIVE), lambda q, x, s, why, what: bad.add(q) if s == 'violated' else None)
    Draws(ast.parse(NEGATIVE), lambda q, x, s, why, what: good.add(q) if s != 'ok' else None)
    if bad != set('abcdefghijk') or good:
        c.add('self test', 'examples', 'undecided', 'found %s, wrongly %s' % (sorted(bad), sorted(good)))
        return
    c.add('self test', 'examples', 'proved')
    ms = project(w)
    n = words(ms)
    for m in ms:
        def report(q, x, s, why, what):
            if dead(q, n):
                return
            where = '%s:%d (%s)' % (short(m.path), x.lineno, q)
            k = '%s:%s, %s' % (m.name, q, what)
            c.add('draws', k, {'ok': 'proved'}.get(s, s), why, where)
        d = Draws(m.tree, report)
        c.add('draws', '%s: %d draws' % (m.name, d.sites), 'proved')
    for sv in ('impes', 'fully_implicit'):
        for pvt in (False, True):
            if pvt and sv != 'impes':
                continue
            lab = '%s, %s' % ({'impes': 'sequential', 'fully_implicit': 'fully implicit'}[sv], 'tables' if pvt else 'no tables')
            guarded(c, 'fields', lab, c21_fields, c, sv, pvt, lab)
    for sv in ('impes', 'fully_implicit'):
        guarded(c, 'fields', 'run, ' + sv, c21_run, c, sv)
    guarded(c, 'fields', 'environment', c21_env, c)


def chance(n, memo, ip):
    """the first value n is computed from, also through loops, that is not a function of the inputs"""
    work = [n]
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            work += x
            continue
        if not isinstance(x, N) or x in memo:
            continue
        memo.add(x)
        if x.op == 'random':
            return x
        if x.op == 'mu':
            work += list(ip.loop_table.get(x.args[0], {}).get(x, ()))
        f = x.args[0] if x.args else None
        if x.op in ('call', 'fn', 'rec', 'opaque'):
            nm = f if isinstance(f, str) else '.'.join(a for a in f.args if isinstance(a, str)) if isinstance(f, N) else ''
            nm = nm[4:] if nm.startswith('ext.') else nm
            if (nm + '.').startswith(CLOCKS + ('secrets.', 'random.', 'builtins.id.')) and not nm.endswith(('strftime', 'Random', 'timedelta')):
                return x
        work += x.args
    return None


def c21_values(c, lab, items, w):
    memo = set()
    for nm, n in items:
        x = chance(n, memo, w.ip)
        c.ok('fields', '%s, %s' % (lab, nm), x is None, x is not None and 'depends on %s' % nd.show(x, 4), locate(w, x) if x is not None else '')


def c21_fields(c, sv, pvt, lab):
    w = World(pvt=pvt, wells=PROD, solver=sv, sources=SRC, converged=None)
    ip = w.ip
    ex, ev = w.step_exits()
    c.absorb(ip)
    for k, (kind, s, v) in enumerate(ex):
        if kind != 'return':
            continue
        items = [('flag of exit %d' % k, ip.node(s, v))]
        for nm, r in w.objs():
            for a, x in s.heap[r.loc].attrs.items():
                if nm == 'sim' and not a.endswith('balance'):
                    continue        # timings and the like
                try:
                    items.append(('%s.%s' % (nm, a), ip.node(s, x)))
                except Exception:
                    continue
        c21_values(c, lab + ', exit %d' % k, items, w)


def c21_run(c, sv):
    r = Run(c, sv)
    w = r.w
    items = []
    for e in r.events:
        nm = str(e.name)
        last = nm.split('.')[-1]
        if e.kind == 'step' or e.kind == 'call' and last in ('savez_compressed', 'savez', 'imshow'):
            # names of files may carry the time of day, their contents not
            vals = list(e.kw.values()) + ([] if last.startswith('savez') else list(e.args))
            items += [('%s in %s' % (nm, e.func), a) for a in vals if isinstance(a, N)]
    c21_values(c, 'run, ' + sv, items, w)


def c21_env(c):
    from . import output
    e = output.Env(type(c)(c.pid, c.tier, c.seed))
    out, ev, k = e.step(c, e.st0)
    c21_values(c, 'environment', [('result %d after %s' % (i, o), n) for o, (s, nodes, v) in out.items() for i, n in enumerate(nodes)], e.w)


# ---------------------------------------------------------------------------- C27
KINDS27 = {'name': 'names', 'never': 'names', 'branch': 'names', 'attribute': 'attributes', 'signature': 'calls', 'results': 'results'}


def project(w):
    ms = [m for m in w.ip.modules.values() if m.path and ('/src/' in str(m.path) or str(m.path).startswith('src/'))]
    if not ms:
        raise Broken('no module of the project was found')
    return ms


def words(ms):
    """how often each identifier is mentioned, to leave out private functions nobody calls"""
    n = {}
    for m in ms:
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name):
                n[x.id] = n.get(x.id, 0) + 1
            elif isinstance(x, ast.Attribute):
                n[x.attr] = n.get(x.attr, 0) + 1
            elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                n[x.value] = n.get(x.value, 0) + 1
            elif isinstance(x, ast.alias):
                n[x.name.split('.')[-1]] = n.get(x.name.split('.')[-1], 0) + 1
    return n


def dead(qual, n):
    last = qual.split('.')[-1]
    return any(p.startswith('_') and not p.startswith('__') and not n.get(p) for p in qual.split('.') if p != '<locals>') or last in ('<lambda>',)


def C27(c):
    c.rule('names', 'on every path each name is assigned before it is used (branches on the same unchanged condition are followed together)')
    c.rule('attributes', 'an attribute read from an object of a project class or from a project module exists there')
    c.rule('calls', 'a call of a project function or class binds to its signature')
    c.rule('results', 'a call of a project function whose results are assigned to several names returns that many on every return')
    c.rule('imports', 'a name imported from a project module exists there')
    c.rule('followed', 'interpreting construction, steps of both schemes, runs, exports, the environment, the generator and the solvers meets no '
                       'missing attribute, argument or dictionary entry')
    w = World(pvt=True, wells=PROD, freeze=False)
    c.absorb(w.ip)
    ms = project(w)
    n = words(ms)
    P = typed.Project(w)
    for m in ms:
        guarded(c, 'names', m.name, c27_module, c, P, m, n)
    worlds(c)


def c27_module(c, P, m, n):
    bad = {}

    def report(kind, name, node, msg, fn):
        q = str(fn)
        if dead(q, n):
            return
        rule = KINDS27.get(kind)
        where = '%s:%d (%s)' % (short(m.path), node.lineno, q)
        if rule is None:
            c.add('names', '%s, %s in %s' % (m.name, name, q), 'undecided', msg, where)
        else:
            bad.setdefault((rule, q), []).append((name, msg, where))
    names.assignment(m.tree, report)
    k = typed.check(P, m, report)
    for q, f, cls, outer in names.functions(m.tree):
        for rule in ('names', 'attributes', 'calls', 'results'):
            b = bad.pop((rule, q), None)
            c.ok(rule, '%s:%s' % (m.name, q), not b, b and '; '.join('%s: %s' % x[:2] for x in b), b and b[0][2])
    for (rule, q), b in bad.items():
        c.ok(rule, '%s:%s' % (m.name, q), False, '; '.join('%s: %s' % x[:2] for x in b), b[0][2])
    c.add('names', m.name + ', module level', 'proved')
    mods = {x.name: x for x in P.mods.values()}
    for x, caught in imports(m.tree):
        if isinstance(x, ast.ImportFrom):
            if x.level:
                base = m.name.split('.')
                base = base[:len(base) - x.level + (1 if str(m.path).endswith('__init__.py') else 0)]
                nm = '.'.join(base + ([x.module] if x.module else []))
            else:
                nm = x.module or ''
            if nm.split('.')[0] not in {y.split('.')[0] for y in mods}:
                continue
            for a in x.names:
                full = nm + '.' + a.name
                t = mods.get(nm)
                ok = a.name == '*' or full in mods or t is not None and a.name in t.env or any(y.startswith(full + '.') for y in mods)
                if t is None and not any(y.startswith(nm + '.') for y in mods):
                    ok = False
                if caught and not ok:
                    continue
                c.ok('imports', '%s: %s' % (m.name, full), ok, '%s does not exist' % full, '%s:%d' % (short(m.path), x.lineno))


def imports(tree):
    """import statements and whether a handler around them catches a failed import"""
    def go(x, caught):
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            yield x, caught
        for f, v in ast.iter_fields(x):
            for y in v if isinstance(v, list) else [v]:
                if isinstance(y, ast.AST):
                    q = caught
                    if isinstance(x, ast.Try) and f == 'body' and any(h.type is None or any(isinstance(z, ast.Name) and z.id in (
                            'ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException') for z in ast.walk(h.type)) for h in x.handlers):
                        q = True
                    yield from go(y, q)
    return go(tree, False)


EVENTS27 = {'keyerror': 'the dictionary has no such entry', 'undefattr': 'the attribute does not exist', 'badcall': 'the arguments do not fit the signature'}


def followed(c, lab, ip, base=frozenset(), world=None):
    c.absorb(ip)
    n0 = 0
    seen = {}
    for e in ip.events[n0:]:
        if e.kind in EVENTS27:
            seen.setdefault((e.kind, str(e.name), e.path, e.line), e)
    bad = 0
    for (kind, nm, _, _), e in sorted(seen.items(), key=str):
        pc = nd.andn(*[p for p in e.pc if p not in base])
        real = pc is TRUE
        if not real:
            try:
                real = equiv(pc, FALSE, world, points=200).kind == 'different'
            except Exception:
                real = False
        what = '%s%s' % (nm, ' (%s)' % ', '.join(e.kw) if kind == 'badcall' and e.kw else '')
        c.add('followed', '%s: %s in %s' % (lab, what, e.func), 'violated' if real else 'undecided', EVENTS27[kind] +
              ('' if real else ' (on a path that may not exist)'), at(e))
        bad += 1
    if not bad:
        c.add('followed', lab, 'proved')


def worlds(c):
    from . import output
    quiet = type(c)(c.pid, c.tier, c.seed)      # obligations of other rules are not counted here

    def step(sv, pvt, ws, lab, **kw):
        w = World(pvt=pvt, wells=ws, solver=sv, sources=SRC, freeze=False, converged=None, **kw)
        w.step_exits()
        followed(c, lab, w.ip, w.st.pc, w)
    inj = [dict(type='injector', control_type='bhp'), dict(type='injector', control_type='rate', injected_phase='gas')]
    for sv, pvt, ws, lab in (('impes', False, PROD, 'sequential step'), ('impes', True, PROD, 'sequential step, tables'),
                             ('impes', False, inj[:1], 'sequential step, injector at pressure'),
                             ('impes', True, inj[1:], 'sequential step, injector of gas'),
                             ('impes', False, [dict(type='producer', control_type='rate', rate_type='surface', surface_phase='oil', bhp_min=True, limits=['qo', 'qw'])],
                              'sequential step, producer at surface rate with limits'),
                             ('fully_implicit', False, PROD, 'fully implicit step'), ('fully_implicit', False, inj[:1], 'fully implicit step, injector at pressure'),
                             ('fully_implicit', False, [], 'fully implicit step, no well')):
        guarded(c, 'followed', lab, step, sv, pvt, ws, lab)

    def run(sv):
        r = Run(quiet, sv, vtk=TRUE)
        followed(c, 'run, ' + sv, r.w.ip, r.w.st.pc, r.w)
    for sv in ('impes', 'fully_implicit'):
        guarded(c, 'followed', 'run, ' + sv, run, sv)

    def env():
        e = output.Env(quiet)
        e.step(quiet, e.st0)
        e.call(e.st0.fork(), 'reset')
        followed(c, 'environment', e.ip, e.w.st.pc, e.w)
    guarded(c, 'followed', 'environment', env)
    def gen():
        g = output.Gen(quiet)
        followed(c, 'table generator', g.ip, g.w.st.pc, g.w)
    guarded(c, 'followed', 'table generator', gen)

    def func(nm, module=None, **kw):
        w = World(pvt=False, freeze=False, wells=PROD)
        f = w.find_func(nm, module)
        st = w.st.fork()
        args = []
        a = f.node.args
        for x in a.posonlyargs + a.args:
            args.append({'reservoir': w.res, 'fluid': w.fl, 'well_manager': w.wm, 'wells': w.wm, 'simulator': w.sim}.get(x.arg, sym('arg', x.arg)))
        w.ip.run_exits(f, args, {}, st)
        followed(c, f.qual, w.ip, w.st.pc, w)
    w = World(pvt=False, freeze=False)
    for m in project(w):
        for nm, f in sorted(m.env.items()):
            if isinstance(f, FuncV) and f.module is m and f.cls is None and m.name.split('.')[-1] not in ('classical_amg', 'pressure_amg') \
                    and not nm.startswith('_'):
                guarded(c, 'followed', f.qual, func, nm, m.name)

    def plots():
        w = World(pvt=False, freeze=False, wells=PROD)
        try:
            cls = w.find_class('Plotter')
        except AnalysisError:
            return
        st = w.st.fork()
        f = cls.lookup('__init__')
        o = w.ip.instantiate(cls, [{'reservoir': w.res, 'fluid': w.fl, 'well_manager': w.wm, 'simulator': w.sim}.get(x.arg, sym('arg', x.arg))
                                   for x in f.node.args.args[1:]] if f else [], {}, st, None)
        for nm, f in cls.attrs.items() if hasattr(cls, 'attrs') else []:
            if isinstance(f, FuncV) and not nm.startswith('_'):
                w.ip.run_exits(f, [o] + [sym('arg', x.arg) for x in f.node.args.args[1:]], {}, st.fork())
        followed(c, 'plots', w.ip, w.st.pc, w)
    guarded(c, 'followed', 'plots', plots)

    def solvers():
        for lab, kw, last in CONFIGS:
            g = Amg(**kw)
            ip, st = g.ip, g.st
            o = ip.instantiate(g.cls, [T(ip, st, g.matrix('A'))], {'max_levels': num(g.max_levels), 'coarsest_size': num(g.coarsest)}, st, None)
            ip.call_func(g.cls.lookup('solve'), [o, T(ip, st, sym('b'))], {'max_iter': num(2), 'tol': scalar('tol')}, st, None)
            ip.call_func(g.cls.lookup('apply'), [o, T(ip, st, sym('r'))], {}, st, None)
            followed(c, 'multigrid, ' + lab, ip)
    guarded(c, 'followed', 'multigrid', solvers)

    def cg():
        w = bare()
        ip, st = w.ip, w.st.fork()
        f = w.method(w.sim, '_solve_pressure_cg_pytorch')
        ip.run_exits(f, [w.sim, T(ip, st, sym('A')), T(ip, st, sym('b'))], {'tol': scalar('tol'), 'max_iter': scalar('maxit')}, st)
        followed(c, 'conjugate gradients', ip, w.st.pc, w)
    guarded(c, 'followed', 'conjugate gradients', cg)


# ---------------------------------------------------------------------------- C28
SP = sym('sim_params')
PC, PCG = sym('pccfg'), sym('pcgcfg')
S_ = lambda k: scalar('set.' + k)
DEFAULTS = {'cg_tolerance': Fr(1, 10 ** 6), 'cg_max_iter': Fr(500), 'max_time_step_attempts': Fr(5), 'dt_reduction_factor': Fr(2),
            'max_saturation_change': Fr(1, 20), 'max_substeps': Fr(20), 'global_rate_scale': Fr(1), 'newton_max_iter': Fr(20), 'newton_tolerance': Fr(1, 1000),
            'damping_factor': Fr(7, 10), 'jacobian_regularization': Fr(1, 10 ** 7), 'total_time_days': Fr(100), 'time_step_days': Fr(1),
            'save_interval': Fr(10), 'animation_fps': Fr(5)}
FLUID = {'pressure': 20, 's_w': Fr(1, 5), 's_g': 0, 'mu_oil': 1, 'mu_water': Fr(1, 2), 'mu_gas': Fr(1, 50), 'rho_oil': 850, 'rho_water': 1000, 'rho_gas': 1,
         'c_oil': Fr(1, 10 ** 5), 'c_water': Fr(1, 10 ** 5), 'c_gas': Fr(1, 1000), 'c_rock': Fr(1, 10 ** 5)}
RELPERM = {'nw': 2, 'no': 2, 'ng': 2, 'ko_end_w': 1, 'ko_end_g': 1, 'sw_cr': Fr(1, 5), 'so_r': Fr(1, 5), 'sg_cr': 0}
CAPILLARY = {'pc_scale': 0, 'pc_exponent': Fr(3, 2)}
AMGDEF = {'max_cycles': Fr(20), 'theta': Fr(1, 4), 'max_levels': Fr(10), 'coarsest_size': Fr(200)}


def gets(nodes, key):
    k = string(key)
    seen = set()
    for n in nodes:
        for x in nd.walk(n, seen):
            if x.op in ('get', 'item') and len(x.args) > 1 and x.args[1] is k:
                yield x


def deep(nodes, ip):
    """all nodes the given ones are computed from, also through loops"""
    work, memo = list(nodes), set()
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            work += x
            continue
        if not isinstance(x, N) or x in memo:
            continue
        memo.add(x)
        if x.op == 'mu':
            work += list(ip.loop_table.get(x.args[0], {}).get(x, ()))
        work += x.args
    return memo


def val(x):
    """the number a default is, through int() and float()"""
    while x.op == 'fn' and x.args[0] in ('int', 'float') and len(x.args) == 2:
        x = x.args[1]
    return nd.numval(x)


def C28(c):
    c.rule('solver', 'the first pressure solve of an attempt gets the configured tolerance and iteration limit, every other one gets multiples of them')
    c.rule('attempts', 'a step makes as many attempts as configured and divides the step by the configured factor after each failed one')
    c.rule('substeps', 'the number of substeps never exceeds the configured limit, and below it no substep changes a saturation by more than the configured change')
    c.rule('rate scale', 'the rate of a well controlled by reservoir rate is proportional to the configured scale')
    c.rule('newton', 'the Newton loop runs as often as configured; tolerance, damping and regularisation reach its result')
    c.rule('multigrid', 'each multigrid setting reaches the argument of its name, as configured')
    c.rule('output', 'compressed file, full arrays and animation are written exactly when configured')
    c.rule('capillary', 'capillary pressure is the configured scale times one minus the normalised saturation to the power of minus the configured exponent')
    c.rule('default', 'an absent setting takes its default value')
    c.rule('sections', 'the command line builds reservoir, wells, fluid and simulator from the sections of these names and runs with the configured file name')
    guarded(c, 'solver', 'sequential', c28_cg, c)
    for sv in ('impes', 'fully_implicit'):
        lab = {'impes': 'sequential', 'fully_implicit': 'fully implicit'}[sv]
        guarded(c, 'attempts', lab, c28_attempts, c, sv, lab)
    for pvt in (False, True):
        guarded(c, 'substeps', 'tables' if pvt else 'no tables', c28_substeps, c, pvt)
    for t in ('producer', 'injector'):
        guarded(c, 'rate scale', t, c28_scale, c, t)
    guarded(c, 'newton', 'fully implicit', c28_newton, c)
    for full in (True, False):
        guarded(c, 'multigrid', 'given' if full else 'absent', c28_amg, c, full)
    guarded(c, 'output', 'run', c28_output, c)
    guarded(c, 'capillary', 'fluid', c28_capillary, c)
    guarded(c, 'default', 'fluid', c28_fluid, c)
    guarded(c, 'sections', 'main', c28_main, c)


def step_nodes(w, ex):
    out = []
    for k, s, v in ex:
        if k == 'return':
            out.append(w.ip.node(s, v))
            for a in ('pressure', 's_w', 's_g', 's_o'):
                out.append(w.nodeof(w.fl, a, s))
    return out


def settled(nodes, key, how):
    """n -> n with the setting absent (how None) or equal to how"""
    k = string(key)
    seen, m = set(), {}
    for n in nodes:
        for x in nd.walk(n, seen):
            if x.op in ('get', 'item') and len(x.args) > 1 and x.args[1] is k and (x.args[0] is SP or x.args[0].op == 'sym'):
                if how is not None:
                    m[x] = how
                elif x.op == 'get':
                    m[x] = x.args[2] if len(x.args) > 2 else NONE
            elif x.op == 'in' and x.args[0] is k:
                m[x] = FALSE if how is None else TRUE
    if how is not None:
        m.update({nd.eqn(how, NONE): FALSE, nd.eqn(NONE, how): FALSE})

    def go(n):
        if how is None:
            n = nd.subst(n, m)
        else:
            n = nd.subst(nd.subst(n, {x: v for x, v in m.items() if x.op != 'eq'}), {x: v for x, v in m.items() if x.op == 'eq'})
        return n
    return go


def default(c, lab, nodes, key, want, w=None):
    """every place where the setting is looked up"""
    k = string(key)
    nodes = {x for n in nodes for x in nd.walk(n)}
    xs = [x for x in nodes if x.op == 'get' and len(x.args) > 2 and x.args[1] is k]
    tests = {x for x in xs if x.args[2] is NONE} | {x for x in nodes if x.op == 'in' and x.args[0] is k}
    go = settled(nodes, key, None)
    look = [(x, x.args[2]) for x in xs if x not in tests]
    if tests:
        ites = [x for x in nodes if x.op == 'ite' and any(y in tests for y in nd.walk(x.args[0])) and nd.shape_of(x) == 'scalar']
        look += [(x, go(x)) for x in ites if not any(y in tests for y in nd.walk(go(x)))]
    for x, v in look:
        if v.op in ('get', 'item'):
            continue        # another setting
        d = val(v)
        if d is None and x.op == 'ite':
            continue        # a quantity the setting enters, not the setting
        c.ok('default', '%s, %s' % (lab, key), d is not None and abs(d - want) <= abs(want) * Fr(1, 10 ** 9),
             'an absent %s is taken as %s, not %s' % (key, nd.show(v, 3), float(want)), locate(w, x) if w else '')
    if not look:
        c.add('default', '%s, %s' % (lab, key), 'undecided', 'the place where the setting is looked up was not found')
    return look


def c28_cg(c):
    w = World(pvt=False, wells=PROD, sources=SRC, converged=None)
    ip = w.ip
    ex, ev = w.step_exits()
    c.absorb(ip)
    evs = [e for e in ev if e.kind == 'linsolve']
    if not evs:
        raise AnalysisError('no pressure solve was found')
    for k, e in enumerate(evs):
        rest = [a for a in e.args if a.op == 'kw' and not any(y.op in ('spcoo', 'spcsr') for y in nd.walk(a))]
        rest = [a.args[1] for a in rest] + [a for a in e.args if a.op != 'kw' and nd.shape_of(a) == 'scalar']
        for key, what in (('cg_tolerance', 'tolerance'), ('cg_max_iter', 'iteration limit')):
            g = {x for x in gets(rest, key)}
            lab = 'sequential, solve %d, %s' % (k + 1, what)
            if not g:
                vals = [a for a in e.args if a.op == 'kw' and a.args[0] in ({'cg_tolerance': ('tol', 'rtol', 'tolerance'), 'cg_max_iter': (
                    'max_iter', 'maxiter', 'max_iterations')}[key])]
                if vals:
                    c.ok('solver', lab, False, 'the solve gets %s' % nd.show(vals[0].args[1], 4), at(e))
                else:
                    c.add('solver', lab, 'undecided', 'the arguments of the solve were not recognised', at(e))
                continue
            sc = scalar('setting')
            rg = [('setting', 1, 2000, 'int') if key == 'cg_max_iter' else ('setting', 1e-13, 0.2, 'log')]
            for n in [n for n in rest if any(x in g for x in nd.walk(n))]:
                m = settled([n], key, sc)(n)
                d = settled([n], key, None)(n)
                m2 = nd.subst(m, {sc: nd.mul(num(2), sc)})
                if k == 0:
                    c.equal('solver', lab, m, sc, w, where=at(e), what=what, ranges=rg)
                else:
                    c.equal('solver', lab, m2, nd.mul(num(2), m), w, where=at(e), what=what + ' for the doubled setting',
                            ranges=rg)
                c.equal('default', lab, d, nd.subst(m, {sc: num(DEFAULTS[key])}), w, where=at(e), what=what + ' without the setting')
    for key in ('dt_reduction_factor', 'max_saturation_change', 'max_substeps', 'global_rate_scale'):
        default(c, 'sequential', deep(step_nodes(w, ex), ip), key, DEFAULTS[key], w)


def c28_attempts(c, sv, lab):
    w = World(pvt=False, wells=PROD, solver=sv, sources=SRC, converged=None, sim={'dt_reduction_factor': S_('factor'), 'max_time_step_attempts': None})
    ip = w.ip
    ex, ev = w.step_exits()
    c.absorb(ip)
    nodes = deep(step_nodes(w, ex), ip)
    mus = set()
    for lid, t in ip.loop_table.items():
        for m, (i, b) in t.items():
            if i is DT and b is not m and b is not DT:
                mus.add((m, lid, b))
    mus = [x for x in mus if any(y is x[0] for y in nodes)]
    if not mus:
        raise AnalysisError('no step length that changes from attempt to attempt was found')
    for m, lid, b in mus:
        c.equal('attempts', lab + ', reduction', b, nd.div(m, S_('factor')), w, what='step length after a failed attempt',
                ranges=[('set.', 1.1, 5, 'lin')], where=locate(w, b))
        base = lid.args[0]
        if base.op != 'range' or base.args[2] is not ONE:
            c.add('attempts', lab + ', number', 'undecided', 'the attempts are not a counted loop: ' + nd.show(base, 3))
        else:
            counted(c, 'attempts', lab + ', number', nd.sub(base.args[1], base.args[0]), 'max_time_step_attempts', w, 'number of attempts', locate(w, b))


def counted(c, rule, lab, n, key, w, what, where):
    sc = scalar('setting')
    if not any(x.op in ('get', 'item') and len(x.args) > 1 and x.args[1] is string(key) for x in nd.walk(n)):
        c.ok(rule, lab, False, '%s is %s whatever %s says' % (what, nd.show(n, 4), key), where)
        return
    c.equal(rule, lab, settled([n], key, sc)(n), sc, w, what=what, ranges=[('setting', 1, 40, 'int')], where=where)
    c.equal('default', lab, settled([n], key, None)(n), num(DEFAULTS[key]), w, what=what + ' without the setting', where=where)


def c28_substeps(c, pvt):
    from ..impes import Step, Sat
    lab = 'tables' if pvt else 'no tables'
    M, D = S_('limit'), S_('change')
    s = Step(c, pvt=pvt, wells=PROD, sources=SRC, sim={'max_substeps': M, 'max_saturation_change': D})
    w = s.w
    rg = [('set.limit', 2, 30, 'int'), ('set.change', 0.01, 0.1, 'lin')]
    for a in ('s_w', 's_g'):
        S = Sat(s, a)
        cnt, inc = s.abstract_p(S.count), s.abstract_p(S.inc)
        c.holds('substeps', '%s, %s, limit' % (lab, a), nd.ge(M, cnt), w, ranges=rg, what='substeps within the limit', where=locate(w, S.count))
        D1 = nd.mul(D, num(Fr(1000001, 1000000)))
        # at the cell that needs most substeps the largest value over the grid is its own
        top = lambda n: nd.subst(n, {x: x.args[1] for x in nd.walk(n) if x.op == 'red' and x.args[0] in ('max', 'amax')})
        cnt, inc = top(cnt), top(inc)
        small = nd.andn(nd.ge(D1, inc), nd.ge(inc, nd.neg(D1)))
        c.holds('substeps', '%s, %s, change' % (lab, a), nd.orn(nd.ge(cnt, M), small), w, ranges=rg, where=locate(w, S.count),
                points=max(c.points, 100), what='a substep changes the saturation by at most the configured change')
        for k, x in (('max_substeps', M), ('max_saturation_change', D)):
            c.ok('substeps', '%s, %s, %s' % (lab, a, k), any(y is x for y in nd.walk(S.count)), 'the number of substeps does not depend on ' + k, locate(w, S.count))


def c28_scale(c, t):
    from ..impes import Step, Sat, System
    F, H = S_('scale'), scalar('one scale')
    s = Step(c, pvt=False, wells=[dict(type=t, control_type='rate')], sources=SRC, sim={'global_rate_scale': F})
    w = s.w
    k = [(e['i'], e['j'], e['k']) for e in w.wsym][0]
    rg = [('set.scale', 0.3, 2, 'lin'), ('dt', 1e-6, 1e-3, 'log')]
    double = lambda n: nd.subst(n, {F: nd.mul(num(2), F)})
    for a in ('s_w', 's_g'):
        q = Sat(s, a).parts.get(k, ZERO)
        c.equal('rate scale', '%s, %s moved for the doubled scale' % (t, a), double(q), nd.mul(num(2), q), w, ranges=rg, where=locate(w, q))
    Y = System(s)
    q = Y.rparts.get(k)
    if q is None:
        raise AnalysisError('no well term in the pressure system')
    c.equal('rate scale', '%s, pressure system for the doubled scale' % t, double(q), nd.mul(num(2), q), w, ranges=rg, where=locate(w, q))
    c.ok('rate scale', t + ', reaches the pressure system', any(x is F for x in nd.walk(q)), 'the well term does not depend on the configured scale', locate(w, q))


def c28_newton(c):
    w = World(pvt=False, wells=PROD, solver='fully_implicit', sources=SRC, converged=None)
    ip = w.ip
    ex, ev = w.step_exits()
    c.absorb(ip)
    ns = step_nodes(w, ex)
    nodes = deep(ns, ip)
    sol = [e for e in ev if e.kind == 'call' and str(e.name).split('.')[-1] in ('solve', 'spsolve', 'lstsq') and e.loops]
    if not sol:
        raise AnalysisError('no linear solve in the Newton loop was found')
    for e in sol:
        base = e.loops[-1].args[0]
        if base.op != 'range' or base.args[2] is not ONE:
            c.add('newton', 'iterations', 'undecided', 'the Newton loop is not a counted loop')
            continue
        counted(c, 'newton', 'iterations', nd.sub(base.args[1], base.args[0]), 'newton_max_iter', w, 'number of Newton iterations', at(e))
        J = [a for a in e.args if isinstance(a, N)][:1]
        ok = any(True for x in gets(deep(J, ip), 'jacobian_regularization'))
        c.ok('newton', 'regularisation, %s' % e.name, ok, 'the matrix does not depend on the configured regularisation', at(e))
    ps = [n for n in ns if nd.shape_of(n) == 'grid'] or ns
    for key, what, over in (('damping_factor', 'damping', ps), ('newton_tolerance', 'tolerance', [n for n in ns if nd.shape_of(n) != 'grid'])):
        ok = any(True for x in gets(deep(over, ip), key))
        c.ok('newton', what, ok, 'the result of a step does not depend on the configured ' + what, '')
    for key in ('newton_tolerance', 'damping_factor', 'jacobian_regularization', 'dt_reduction_factor'):
        default(c, 'fully implicit', nodes | deep([e.loops[-1].args[0] for e in sol] + [a for e in sol for a in e.args if isinstance(a, N)], ip), key, DEFAULTS[key], w)


def c28_amg(c, full):
    cfg = {'pressure_solver': string('amg')}
    lab = 'settings given' if full else 'settings absent'
    w = World(pvt=False, wells=[], sources=SRC, sim=cfg, amg=True, freeze=False)
    ip, st = w.ip, w.st
    keys = ('tol', 'max_cycles', 'theta', 'max_levels', 'coarsest_size', 'device')
    if full:
        d = dict_(ip, st, {k: string('dev') if k == 'device' else S_('amg.' + k) for k in keys})
        v = ip.getattr(w.sim, 'sim_params', st, None)
        ip.setitem(v, string('amg'), d, st, None)
    got = []
    f = None
    for m in ip.modules.values():
        if m.name.endswith('pressure_amg'):
            f = m.env.get('amg_solve')
    if not isinstance(f, FuncV):
        raise Broken('amg_solve is gone')

    def stub(ip, st, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = dict(zip(pos, args))
        env.update(kw)
        got.append({k: ip.node(st, v) for k, v in env.items() if k in keys})
        return ip.tensor(st, sym('amg.out'), 'flat')
    ip.stubs[f.qual] = stub
    w.step_exits()
    c.absorb(ip)
    if not got:
        raise AnalysisError('amg_solve is not called')
    sig = {}
    a = f.node.args
    ps = a.posonlyargs + a.args
    for p, dv in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        sig[p.arg] = ip.node(st, ip.eval_default(dv, st, f.module))
    for g in got:
        for k in keys:
            n = g.get(k, sig.get(k))
            if n is None:
                c.add('multigrid', '%s, %s' % (lab, k), 'undecided', 'amg_solve has no argument ' + k)
                continue
            if k == 'device' or full:
                want = (string('dev') if full else string('auto')) if k == 'device' else S_('amg.' + k)
                while n.op == 'fn' and n.args[0] in ('float', 'int') and len(n.args) == 2:
                    n = n.args[1]
                if not full:
                    n = absent(n)
                    c.ok('default', 'multigrid, device', n is want, 'an absent device is taken as %s' % nd.show(n, 3), f.qual)
                else:
                    c.ok('multigrid', '%s, %s' % (lab, k), n is want, '%s is %s' % (k, nd.show(n, 4)), f.qual)
            else:
                base = absent(n)
                if k == 'tol':
                    g2 = list(gets([base], 'cg_tolerance'))
                    c.ok('default', 'multigrid, tol', bool(g2) or val(base) == DEFAULTS['cg_tolerance'], 'an absent tolerance is taken as %s' % nd.show(base, 4), f.qual)
                else:
                    v = val(base)
                    c.ok('default', 'multigrid, ' + k, v == AMGDEF[k], 'an absent %s is taken as %s' % (k, nd.show(base, 4)), f.qual)


def absent(n):
    """value when the multigrid section has no such entry"""
    while True:
        if n.op == 'fn' and n.args[0] in ('float', 'int') and len(n.args) == 2:
            n = n.args[1]
        elif n.op == 'get' and len(n.args) > 2 and not (n.args[0] is SP):
            n = n.args[2]
        elif n.op == 'ite':
            # the section is there or not
            a, b = absent(n.args[1]), absent(n.args[2])
            if a is b:
                return a
            return n
        else:
            return n


def c28_output(c):
    r = Run(c)
    w = r.w
    ev = [e for e in r.events if not (r.loop is not None and r.loop in e.loops)]
    of = lambda *nm: [e for e in ev if e.kind == 'call' and str(e.name).split('.')[-1] in nm]
    # np.array2string is called for the full arrays
    for what, es, key, d in (('compressed file', of('savez_compressed', 'savez'), 'save_npz', True), ('full arrays', of('array2string'), 'write_full_arrays_txt', False)):
        if not es:
            raise AnalysisError('nothing is written: ' + what)
        on, off = nd.TRUE, nd.TRUE
        for e in es:
            pc = nd.andn(*r.lits(e))
            if not list(gets([pc], key)):
                c.ok('output', what, False, 'written whatever %s says (condition %s)' % (key, nd.show(pc, 4)), at(e))
                continue
            sc = scalar('setting')
            t = settled([pc], key, sc)(pc)
            yes, no = assume_all(t, [(nd.truthy(sc), True)]), assume_all(t, [(nd.truthy(sc), False)])
            c.ok('output', '%s, %s on' % (what, key), yes is TRUE, 'written only if %s' % nd.show(yes, 4), at(e))
            c.ok('output', '%s, %s off' % (what, key), no is FALSE, 'written if %s' % nd.show(no, 4), at(e))
            dv = settled([pc], key, None)(pc)
            c.ok('default', 'run, ' + key, dv is (TRUE if d else FALSE), 'without %s: written if %s' % (key, nd.show(dv, 3)), at(e))
    allev = [x for e in r.events for x in list(e.pc) + [a for a in e.args if isinstance(a, N)] + [a for a in e.kw.values() if isinstance(a, N)]] + \
            [e.loops[0].args[0] for e in r.events if e.loops]
    for key in ('total_time_days', 'time_step_days', 'save_interval', 'animation_fps'):
        default(c, 'run', allev, key, DEFAULTS[key], w)


def c28_capillary(c):
    from .fluidrules import Fl, corey_norm, FULL, SW, SG, get as rget
    F = Fl(c, pvt=False)
    w = F.w
    for name, S, base, nrm in (('get_capillary_pressure', SW, PC, corey_norm(SW)),
                               ('get_capillary_pressure_og', SG, PCG, nd.clamp(nd.div(SG, nd.sub(nd.sub(ONE, rget('sw_cr', num(Fr(1, 5)))), rget('so_r', num(Fr(1, 5))))), ZERO, ONE))):
        sc, ex = mk('get', base, string('pc_scale'), num(0)), mk('get', base, string('pc_exponent'), num(Fr(3, 2)))
        want = nd.mul(sc, nd.power(nd.add(nd.sub(ONE, nrm), num(Fr(1, 10 ** 6))), nd.neg(ex)))
        got = F.node(name, S)
        A, B = scalar('pcs'), scalar('pce')
        mp = {sc: A, ex: B}
        default(c, name, [got], 'pc_scale', Fr(0), w)
        default(c, name, [got], 'pc_exponent', Fr(3, 2), w)
        got = nd.subst(got, {x: A if x.args[1] is string('pc_scale') else B for x in list(gets([got], 'pc_scale')) + list(gets([got], 'pc_exponent'))
                             if x.args[0] is base})
        c.equal('capillary', name, got, nd.subst(want, mp), w, ranges=FULL + [('pcs', 100, 1e5, 'log'), ('pce', 0.2, 3, 'lin')], points=max(c.points, 150),
                what='capillary pressure')
        c.equal('capillary', name + ', none', nd.subst(got, {A: ZERO}), ZERO, w, ranges=FULL + [('pce', 0.2, 3, 'lin')], what='capillary pressure with scale zero')


def c28_fluid(c):
    w = World(pvt=False, freeze=False, sources=SRC)
    ip = w.ip
    st = w.st.fork()
    empty = dict_(ip, st, {'capillary_pressure': dict_(ip, st, {}), 'relative_permeability': dict_(ip, st, {}), 'capillary_pressure_og': dict_(ip, st, {}),
                           'pvt': dict_(ip, st, {})}, None)
    fl = ip.instantiate(w.Fluid, [empty, w.res, w.dev], {}, st, None)
    A = lambda a: ip.node(st, ip.getattr(fl, a, st, None))
    fact = {'mu': Fr(1, 1000), 'rh': 1, 'c_': Fr(1, 10 ** 6)}
    for a, k, f in (('pressure', 'pressure', 10 ** 6), ('s_w', 's_w', 1), ('s_g', 's_g', 1)):
        c.equal('default', 'fluid, ' + k, A(a), num(Fr(FLUID[k]) * f), w, what='%s without configuration' % k)
    for ph in ('oil', 'water', 'gas'):
        P = ip.tensor(st, grid('pressure.arg'), 'grid')
        f = w.Fluid.lookup('calc_%s_density' % ph)
        if f is None:
            raise Broken('Fluid.calc_%s_density is gone' % ph)
        got = ip.node(st, ip.call_func(f, [fl, P], {}, st, None))
        want = nd.mul(num(Fr(FLUID['rho_' + ph])), nd.add(ONE, nd.mul(num(Fr(FLUID['c_' + ph]) / 10 ** 6), nd.sub(grid('pressure.arg'), num(10 ** 5)))))
        c.equal('default', 'fluid, density of ' + ph, got, want, w, what='density of %s without configuration' % ph)
        got = ip.node(st, ip.getattr(fl, 'mu_' + ph, st, None))
        c.equal('default', 'fluid, viscosity of ' + ph, got, num(Fr(FLUID['mu_' + ph]) / 1000), w, what='viscosity of %s without configuration' % ph)
    from .fluidrules import curves, FULL, SW, SG, RP
    f = w.Fluid.lookup('get_rel_perms')
    if f is None:
        raise Broken('Fluid.get_rel_perms is gone')
    v = ip.call_func(f, [fl, ip.tensor(st, SW, 'grid'), ip.tensor(st, SG, 'grid')], {}, st, None)
    k = curves('corey', SW, SG)
    full = {mk('get', RP, string(n), num(Fr(x))): num(Fr(x)) for n, x in RELPERM.items()}
    for ph, x in zip('owg', v if isinstance(v, tuple) else ()):
        want = nd.subst(k[ph], full)
        c.equal('default', 'fluid, relative permeability ' + ph, ip.node(st, x), want, w, ranges=FULL, what='relative permeability without configuration')
    st2 = w.st.fork()
    res = ip.instantiate(w.Reservoir, [dict_(ip, st2, {}), w.dev], {}, st2, None)
    R = lambda a: ip.node(st2, ip.getattr(res, a, st2, None))
    for a, want in (('porosity', num(Fr(1, 5))), ('permeability_x', num(Fr('9.869233e-14'))), ('permeability_z', num(Fr('9.869233e-15')))):
        c.equal('default', 'reservoir, ' + a, R(a), want, w, what=a + ' without configuration')


def c28_main(c):
    w = World(pvt=False, freeze=False, sources=SRC)
    ip = w.ip
    mains = [m for m in project(w) if m.name.split('.')[-1] == 'main']
    if not mains or not isinstance(mains[0].env.get('main'), FuncV):
        raise Broken('main.main is gone')
    f = mains[0].env['main']
    made = {}

    def rec(kind, r):
        def stub(ip, st, args, kw):
            init = w.find_class(kind).lookup('__init__')
            names_ = [a.arg for a in init.node.args.args][1:]
            sig = dict(zip(names_, args))
            sig.update(kw)
            made.setdefault(kind, []).append({k: v if v in (w.res, w.fl, w.wm, w.sim) else ip.node(st, v) for k, v in sig.items()})
            return r
        return stub
    kinds = {'Reservoir': w.res, 'Fluid': w.fl, 'WellManager': w.wm, 'Simulator': w.sim}
    for k, r in kinds.items():
        ip.stubs[k] = rec(k, r)
    runs = []
    run = w.method(w.sim, 'run')

    def stub_run(ip, st, args, kw):
        pos = [a.arg for a in run.node.args.args]
        env = dict(zip(pos, args))
        env.update(kw)
        runs.append({k: ip.node(st, v) for k, v in env.items() if k != pos[0]})
        return NONE
    ip.stubs[run.qual] = stub_run
    ip.run_exits(f, [], {}, w.st.fork())
    c.absorb(ip)
    sect = {'Reservoir': ('reservoir', 'config'), 'Fluid': ('fluid', 'config'), 'WellManager': ('wells', 'well_configs'), 'Simulator': ('simulation', 'sim_params')}
    roots = set()
    for k, (key, par) in sect.items():
        if k not in made:
            c.ok('sections', k, False, 'no %s is built' % k, f.qual)
            continue
        for sig in made[k]:
            v = sig.get(par)
            if v is None:
                v = [x for x in sig.values() if isinstance(x, N) and x.op in ('item', 'get')][:1]
                v = v[0] if v else None
            if v is None or not isinstance(v, N):
                c.add('sections', k, 'undecided', 'the configuration of %s was not found' % k)
                continue
            ok = v.op in ('item', 'get') and v.args[1] is string(key)
            c.ok('sections', k, ok, '%s is built from %s' % (k, nd.show(v, 4)), f.qual)
            if ok:
                roots.add(v.args[0])
            for par2, r in (('reservoir', w.res), ('fluid', w.fl), ('well_manager', w.wm)):
                if par2 in sig:
                    c.ok('sections', '%s, %s' % (k, par2), sig[par2] == r, '%s is built with another %s' % (k, par2), f.qual)
    c.ok('sections', 'one file', len(roots) == 1, 'the sections come from %s' % ', '.join(nd.show(x, 3) for x in roots), f.qual)
    for rd in runs:
        pos = [a.arg for a in run.node.args.args][1:]
        for key, d in zip(('output_filename', 'save_vtk'), (string('simulation_output'), FALSE)):
            n = rd.get(key)
            if n is None:
                n = rd.get(pos[0 if key == 'output_filename' else 1]) if len(pos) > 1 else None
            if n is None:
                c.ok('sections', key, False, 'run is called without the configured %s' % key, f.qual)
                continue
            ok = n.op in ('get', 'item') and n.args[1] is string(key) and n.args[0] in roots
            c.ok('sections', key, ok, 'run is called with %s' % nd.show(n, 4), f.qual)
            if ok and n.op == 'get':
                c.ok('default', 'command line, ' + key, len(n.args) > 2 and n.args[2] is d, 'an absent %s is taken as %s' % (key, nd.show(n.args[-1], 3)), f.qual)
    c.ok('sections', 'run', len(runs) == 1, 'run is called %d times' % len(runs), f.qual)


RULES = {'C20': C20, 'C21': C21, 'C27': C27, 'C28': C28}

"""What leaves the simulator: C23 C29 C30 C32 C34."""
from fractions import Fraction as Fr
from .. import nodes as nd
from ..nodes import num, sym, string, mk, ZERO, ONE, TRUE, FALSE, NONE, N
from ..world import grid, scalar, World, TABLE_KEYS, NX, NY, NZ, DX, DY, DZ
from ..values import FuncV, Ref, OC, DC, LC, ClassV
from ..interp import AnalysisError, State
from ..lib import guarded, locate, Broken
from .flow import SRC
from .state import PROD, Run, assume_all

# ---------------------------------------------------------------------------- sequences
def isseq(x):
    return x.op in ('mapped', 'listloop', 'arange') or x.op == 'fn' and x.args[0] == 'linspace'


def length(n):
    """number of elements of a list or one-dimensional array"""
    o = n.op
    if o in ('list', 'tuple'):
        return num(len(n.args))
    if o == 'range':
        if n.args[2] is not ONE:
            raise AnalysisError('range with a step')
        return nd.sub(n.args[1], n.args[0])
    if o == 'mapped':
        if n.args[2] is not TRUE:
            raise AnalysisError('filtered sequence: ' + nd.show(n, 2))
        return length(n.args[0])
    if o == 'listloop':
        if n.args[2].op == 'several':
            raise AnalysisError('several values per iteration')
        if n.args[1].op not in ('list', 'tuple') or n.args[1].args:
            raise AnalysisError('appended to a non-empty list')
        if len(n.args) != 3 or n.args[0].op != 'loop':
            raise AnalysisError('list built by ' + nd.show(n, 2))
        return length(n.args[0].args[0])
    if o == 'ite':
        return nd.ite(n.args[0], length(n.args[1]), length(n.args[2]))
    if o == 'fn' and n.args[0] in ('list', 'tuple', 'sorted') or o == 'sorted':
        return length(n.args[1] if o == 'fn' else n.args[0])
    if o == 'fn' and n.args[0] == 'linspace':
        return n.args[3] if len(n.args) > 3 else num(50)
    if o == 'arange':
        return nd.sub(n.args[1], n.args[0])
    if o in nd.ELEMWISE:
        ls = []
        for x in nd.walk(n):
            if isseq(x):
                ls.append(x)
        if ls:
            return length(ls[0])
    raise AnalysisError('length of ' + nd.show(n, 2))


def at(n, i):
    """element i"""
    o = n.op
    if o in ('list', 'tuple') and len(n.args) == 1:
        return n.args[0]
    if o == 'range':
        return nd.add(n.args[0], nd.mul(n.args[2], i))
    if o == 'mapped' or o == 'listloop':
        length(n)
        base = n.args[0] if o == 'mapped' else n.args[0].args[0]
        body = n.args[1] if o == 'mapped' else n.args[2]
        return subst_deep(body, {mk('elem', base): at(base, i), mk('iv', base): i if base.op != 'range' else at(base, i)})
    if o == 'ite':
        return nd.ite(n.args[0], at(n.args[1], i), at(n.args[2], i))
    if o == 'fn' and n.args[0] == 'linspace':
        a, b, k = n.args[1], n.args[2], length(n)
        return nd.add(a, nd.div(nd.mul(i, nd.sub(b, a)), nd.sub(k, ONE)))
    if o == 'arange':
        return nd.add(n.args[0], i)
    if o in nd.ELEMWISE:
        memo = {}

        def go(x):
            if x in memo:
                return memo[x]
            if isseq(x):
                r = at(x, i)
            else:
                r = nd.rebuild(x, go) if x.op in nd.ELEMWISE else x
            memo[x] = r
            return r
        return go(n)
    raise AnalysisError('element of ' + nd.show(n, 2))


def subst_deep(n, mp):
    """subst that does not descend into replaced keys"""
    return nd.subst(n, mp)


# ---------------------------------------------------------------------------- C23
UNITS = {'mu_o_cP': ('0.3', '20'), 'mu_w_cP': ('0.2', '1.5'), 'mu_g_cP': ('0.005', '0.1'), 'Rs_m3m3': ('0', '400'), 'Rv_m3m3': ('0', '0.1'),
         'Bo': ('0.9', '2'), 'Bw': ('0.9', '1.2'), 'Bg': ('0.0005', '0.06')}
OPTIONS = {'p_min_mpa': '--p-min', 'p_max_mpa': '--p-max', 'n_points': '--n', 'temperature_c': '--temp', 'oil_api': '--api', 'gas_sg': '--gas-sg',
           'salinity_gpl': '--salinity', 'bubble_point_mpa': '--pb'}


def loader_keys(c):
    """columns the table loader reads, from its source"""
    w = World(pvt=True, sources=SRC)
    c.absorb(w.ip)
    keys = set()
    pv = w.attr(w.fl, 'pvt')
    for loc, cell in list(w.st.heap.items()):
        vals = list(cell.attrs.values()) if isinstance(cell, OC) else list(cell.entries.values()) if isinstance(cell, DC) else []
        for v in vals:
            try:
                n = w.ip.node(w.st, v)
            except Exception:
                continue
            for x in nd.walk(n):
                if x.op in ('item', 'get') and x.args[1].op == 'str' and any(y.op == 'json' or 'json' in str(y.args[:1]) for y in nd.walk(x.args[0])):
                    keys.add(x.args[1].args[0])
    return keys


def C23(c):
    c.rule('columns', 'every column the loader reads is written, under the same name')
    c.rule('one value per pressure', 'every column has one value for each pressure')
    c.rule('pressures', 'pressures run from the lowest to the highest in equal, increasing steps')
    c.rule('units', 'the values lie in the range of the unit in the name, for realistic parameters')
    c.rule('meta data', 'the parameters are recorded under their own names')
    c.rule('options', 'each command-line option reaches the parameter of the same meaning')
    c.rule('output', 'the generated table is written to the file that was asked for')
    g = guarded(c, 'columns', 'generator', Gen, c)
    if g is not None:
        guarded(c, 'columns', 'generator', c23_table, c, g)
        guarded(c, 'options', 'command line', c23_cli, c)


class Gen:
    def __init__(self, c):
        self.w = w = World(pvt=False, freeze=False)
        self.ip = ip = w.ip
        try:
            self.cls = w.find_class('PVTParams')
            self.f = w.find_func('generate_black_oil_pvt')
        except AnalysisError as e:
            raise Broken(str(e))
        self.par = {k: scalar('pp.' + k) for k in self.cls.order}
        st = w.st.fork()
        r = ip.instantiate(self.cls, [], dict(self.par), st, None)
        v = ip.call_func(self.f, [r], {}, st, None)
        c.absorb(ip)
        cell = st.heap[v.loc] if isinstance(v, Ref) else None
        if not isinstance(cell, DC) or cell.base is not None:
            raise AnalysisError('the result is not a dictionary')
        self.st = st
        self.table = {k.args[0]: x for k, x in cell.entries.items()}

    def node(self, k):
        return self.ip.node(self.st, self.table[k])


def c23_table(c, g):
    w = g.w
    where = '%s (%s)' % (g.f.module.path if hasattr(g.f.module, 'path') else g.f.module.name, g.f.name)
    read = set(TABLE_KEYS) | (guarded(c, 'columns', 'loader', loader_keys, c) or set())
    for k in sorted(read):
        c.ok('columns', k, k in g.table, 'the loader reads %r, the generator writes %s' % (k, sorted(g.table)), where=where)
    if 'pressure_MPa' not in g.table:
        return
    P = g.node('pressure_MPa')
    n = g.par['n_points']
    np_ = length(P)
    many = nd.gt0(nd.sub(n, ONE))
    i = scalar('idx')
    lo, hi = g.par['p_min_mpa'], g.par['p_max_mpa']
    RNG = [('n_points', 2, 80, 'int'), ('idx', 0, 78, 'int'), ('p_min', 1, 10, 'lin'), ('p_max', 30, 80, 'lin'), ('oil_api', 20, 45, 'lin'),
           ('gas_sg', 0.6, 0.9, 'lin'), ('bubble', 11, 28, 'lin'), ('salinity', 0, 200, 'lin'), ('temperature', 40, 120, 'lin')]
    kw = dict(ranges=RNG, where=where)
    inside = nd.gt0(nd.sub(nd.sub(n, ONE), i))
    c.equal('pressures', 'number', np_, n, w, what='number of pressures', cond=many, **kw)
    pi = at(P, i)
    c.equal('pressures', 'values', pi, nd.add(lo, nd.div(nd.mul(i, nd.sub(hi, lo)), nd.sub(n, ONE))), w, what='pressure number i', cond=inside, **kw)
    for k in sorted(g.table):
        if k in ('units', 'meta', 'pressure_MPa') or k not in read:
            continue
        guarded(c, 'one value per pressure', k, c23_col, c, g, k, np_, i, inside, kw)
    if 'meta' in g.table:
        m = g.st.heap[g.table['meta'].loc].entries
        for key, par in (('temperature_C', 'temperature_c'), ('oil_API', 'oil_api'), ('gas_SG', 'gas_sg'), ('salinity_gpl', 'salinity_gpl'),
                         ('bubble_point_MPa', 'bubble_point_mpa')):
            if string(key) in m:
                c.ok('meta data', key, g.ip.node(g.st, m[string(key)]) is g.par[par], 'meta data %s holds %s' % (key, nd.show(g.ip.node(g.st, m[string(key)]), 3)),
                     where=where)


def c23_col(c, g, k, np_, i, inside, kw):
    n = g.node(k)
    for x in nd.walk(n):
        if x.op == 'listloop' and g.ip.loop_back.get(x.args[0], TRUE) is not TRUE:
            c.ok('one value per pressure', k, False, 'the loop that fills %s can stop early' % k, where=locate(g.w, x) or kw['where'])
            return
    try:
        ln = length(n)
    except AnalysisError:
        # a guarded append shows as a gated element
        if n.op == 'listloop' and len(n.args) == 4:
            c.ok('one value per pressure', k, False, 'a value is added only if %s' % nd.show(n.args[3], 4), where=locate(g.w, n) or kw['where'])
            return
        if n.op == 'listloop' and n.args[2].op == 'several' and all(t.args[2] is NONE for t in n.args[2].args):
            cnt = nd.add(*[nd.ite(t.args[1], ONE, ZERO) for t in n.args[2].args])
            cnt = at(mk('listloop', n.args[0], n.args[1], cnt), i)
            c.equal('one value per pressure', k, cnt, ONE, g.w, what='number of values of %s per pressure' % k, points=300, **kw)
            return
        raise
    c.equal('one value per pressure', k, ln, np_, g.w, what='number of values of ' + k, **kw)
    v = at(n, i)
    if k in UNITS:
        a, b = UNITS[k]
        c.holds('units', k, nd.orn(nd.notn(inside), nd.andn(nd.ge(v, num(Fr(a))), nd.ge(num(Fr(b)), v))), g.w, what='%s between %s and %s' % (k, a, b), points=300, **kw)


def c23_cli(c):
    w = World(pvt=False, freeze=False)
    ip = w.ip
    f = w.find_func('generate_black_oil_pvt')
    got = []

    def stub(ip, st, args, kw):
        p = args[0] if args else next(iter(kw.values()))
        if not isinstance(p, Ref) or not isinstance(st.heap[p.loc], OC):
            raise AnalysisError('parameters are not an object')
        cell = st.heap[p.loc]
        got.append({a: ip.node(st, ip.getattr(p, a, st, None)) for a in cell.attrs})
        ip.event('generated', 'generate', [], {}, st, None)
        return sym('generated')
    ip.stubs[f.qual] = stub
    if 'main' not in f.module.env:
        raise Broken('pvt_generator.main is gone')
    n0 = len(ip.events)
    ip.run_exits(f.module.env['main'], [], {}, w.st)
    ev = ip.events[n0:]
    c.absorb(ip)
    opts = {}
    for e in ev:
        if e.kind == 'call' and str(e.name).endswith('add_argument'):
            flags = [a.args[0] for a in e.args if isinstance(a, N) and a.op == 'str']
            long = [x for x in flags if x.startswith('--')] or flags
            d = e.kw.get('dest')
            d = d.args[0] if isinstance(d, N) and d.op == 'str' else long[0].lstrip('-').replace('-', '_')
            for x in flags:
                opts[x] = (d, e.kw.get('type'), e)
    if not opts or not got:
        raise AnalysisError('no options or no generated table on the command line')
    pars = [p for p in got if p]
    for par, flag in OPTIONS.items():
        if flag not in opts:
            c.ok('options', flag, False, 'option %s is not accepted' % flag, where=f.module.name)
            continue
        d, ty, e = opts[flag]
        for p in pars:
            n = p.get(par)
            ok = n is not None and n.op == 'attr' and n.args[-1] in (d, string(d)) or n is not None and nd.show(n, 8).endswith('.' + d)
            c.ok('options', flag, ok, 'parameter %s is %s, not option %s' % (par, nd.show(n, 4) if n is not None else 'absent', flag), where=e.where())
        t = str(ty)
        want = 'int' if par == 'n_points' else 'float'
        c.ok('options', flag + ' type', t.rstrip("')").endswith('builtins.' + want) or (isinstance(ty, N) and nd.show(ty).endswith('builtins.' + want)),
             'option %s is read as %s, not %s' % (flag, t, want), where=e.where())
    dumps = [e for e in ev if e.kind == 'call' and str(e.name).endswith('json.dump')]
    writes = [e for e in ev if e.kind == 'call' and str(e.name) in ('write', '.write', 'write_text')]
    out = opts.get('--out', ('out',))[0]
    if not dumps and not writes:
        raise AnalysisError('the table is not written with json.dump or write')
    for e in (dumps or writes):
        txt = [a for a in e.args if isinstance(a, N)]
        c.ok('output', 'contents', any(x is sym('generated') for a in txt for x in nd.walk(a)), 'writes %s' % ', '.join(nd.show(a, 3) for a in txt),
             where=e.where())
        files = [x for a in txt for x in nd.walk(a) if x.op == 'file']
        c.ok('output', 'file', bool(files) and all(nd.show(x.args[0], 8).endswith('.' + out) for x in files), 'writes to %s' % ', '.join(nd.show(x, 4) for x in files),
             where=e.where())


# ---------------------------------------------------------------------------- C29
class Env:
    """the learning environment with the four simulator constructors replaced by recorders that hand out fresh objects"""
    MODES = [dict(type='producer', control_type='rate'), dict(type='injector', control_type='bhp'), dict(type='injector', control_type='rate')]

    def __init__(self, c):
        self.w = w = World(pvt=False, wells=self.MODES, sources=SRC, freeze=False)
        self.ip = ip = w.ip
        try:
            self.cls = w.find_class('ReservoirEnv')
        except AnalysisError as e:
            raise Broken(str(e))
        self.kinds = {'Reservoir': w.res, 'Fluid': w.fl, 'WellManager': w.wm, 'Simulator': w.sim}
        self.made = []          # (kind, generation, signature, ref)
        self.nstep = 0
        for k in self.kinds:
            ip.stubs[k] = self.stub(k)
        self.run = w.method(w.sim, 'run_step')
        ip.stubs[self.run.qual] = self.step_stub
        st = w.st.fork()
        self.action = sym('action')
        self.A = [scalar('action%d' % i) for i in range(len(self.MODES))]
        ip.shape_hint[self.action] = tuple(self.A)
        self.path = sym('config_path')
        self.maxs = scalar('max_steps')
        self.env = ip.instantiate(self.cls, [], {'config_path': self.path, 'max_steps': self.maxs}, st, None)
        self.st0 = st
        c.absorb(ip)

    def gen(self, kind):
        return sum(1 for m in self.made if m[0] == kind)

    def stub(self, kind):
        def f(ip, st, args, kw):
            g = self.gen(kind)
            init = self.w.find_class(kind).lookup('__init__')
            names = [a.arg for a in init.node.args.args][1:]
            sig = dict(zip(names, args))
            sig.update(kw)
            r = self.clone(st, kind, self.kinds[kind], g)
            self.made.append((kind, g, sig, r))
            if kind == 'Simulator':
                cell = st.heap[r.loc]
                at = dict(cell.attrs)
                for a, v in at.items():
                    for p in ('reservoir', 'fluid', 'well_manager', 'sim_params'):
                        if a == p and p in sig:
                            at[a] = sig[p]
                st.heap[r.loc] = OC(cell.cls, at, cell.base)
            return r
        return f

    def clone(self, st, kind, r, g):
        w, ip = self.w, self.ip
        cell = w.st.heap[r.loc]
        at = {}
        for a, v in cell.attrs.items():
            at[a] = self.fresh(st, v, 'g%d.%s.%s' % (g, kind, a), g)
        return ip.new(st, OC(cell.cls, at, cell.base))

    def fresh(self, st, v, name, g):
        w, ip = self.w, self.ip
        if isinstance(v, Ref):
            if v in self.kinds.values():
                kind = [k for k, r in self.kinds.items() if r == v][0]
                m = [x for x in self.made if x[0] == kind and x[1] == g]
                return m[0][3] if m else v
            cell = w.st.heap[v.loc]
            if isinstance(cell, OC) and cell.cls is not None and cell.cls.name == 'Well':
                at = {}
                for a, x in cell.attrs.items():
                    keep = isinstance(x, N) and x.op in ('str', 'none', 'bool') or a in ('control_type', 'type', 'rate_type')
                    at[a] = x if keep or isinstance(x, Ref) else scalar('%s.%s' % (name, a)) if isinstance(x, N) else x
                return ip.new(st, OC(cell.cls, at, cell.base))
            if isinstance(cell, LC) and cell.elem is None:
                return ip.new(st, LC([(q, self.fresh(st, x, '%s%d' % (name, i), g)) for i, (q, x) in enumerate(cell.items)], None, cell.base))
            if ip.is_tensor(w.st, v):
                n = ip.node(w.st, v)
                sh = ip.shape(w.st, v) or nd.shape_of(n)
                if sh not in ('grid', 'scalar'):
                    return v
                return ip.tensor(st, grid(name) if sh == 'grid' else scalar(name), sh)
            return v
        if isinstance(v, N) and v.op in ('poly', 'num', 'get', 'max', 'min', 'ite') and not any(v is d for d in (NX, NY, NZ)):
            return scalar(name)
        return v

    def step_stub(self, ip, st, args, kw):
        k = self.nstep
        self.nstep += 1
        sim = args[0]
        wm = ip.getattr(sim, 'well_manager', st, None)
        fl = ip.getattr(sim, 'fluid', st, None)
        vals = [ip.node(st, ip.getattr(x, 'control_value', st, None)) for x in ip.seq(ip.getattr(wm, 'wells', st, None), st)]
        rest = list(args[1:]) + list(kw.values())
        ip.event('step', 'run_step', [ip.node(st, rest[0])] + vals, {}, st, None)
        cell = st.heap[fl.loc]
        at = dict(cell.attrs)
        for a, v in at.items():
            if isinstance(v, Ref) and ip.is_tensor(st, v) and (ip.shape(st, v) == 'grid' or nd.shape_of(ip.node(st, v)) == 'grid'):
                at[a] = ip.tensor(st, grid('now%d.%s' % (k, a)), 'grid')
        st.heap[fl.loc] = OC(cell.cls, at, cell.base)
        return mk('flag', 'ok%d' % k)

    def call(self, st, name, *args, **kw):
        f = self.cls.lookup(name)
        if not isinstance(f, FuncV):
            raise Broken('ReservoirEnv.%s is gone' % name)
        n0 = len(self.ip.events)
        k0 = self.nstep
        ex = self.ip.run_exits(f, [self.env] + list(args), kw, st)
        return [x for x in ex if x[0] == 'return'], self.ip.events[n0:], k0

    def step(self, c, st):
        """(exits by outcome of the simulator, events, step number)"""
        ex, ev, k = self.call(st, 'step', self.action)
        out = {}
        flag = nd.truthy(mk('flag', 'ok%d' % k))
        for kind, s, v in ex:
            v = tuple(self.ip.seq(v, s))
            if len(v) != 5:
                raise AnalysisError('step does not return five values')
            pc = nd.andn(*[p for p in s.pc if p not in st.pc])
            for o in (True, False):
                if assume_all(pc, [(flag, o)]) is not FALSE:
                    nodes = [assume_all(self.ip.node(s, x), [(flag, o)]) for x in v]
                    out.setdefault(o, []).append((s, nodes, v))
        for o in (True, False):
            if len(out.get(o, [])) != 1:
                raise AnalysisError('%d exits after a %s step' % (len(out.get(o, [])), 'successful' if o else 'failed'))
        return {o: out[o][0] for o in out}, ev, k

    def get(self, st, *path):
        v = self.env
        for a in path:
            v = self.ip.getattr(v, a, st, None)
        return v


def C29(c):
    c.rule('same construction', 'reset builds reservoir, wells, fluid and simulator from the same configuration sections as construction, wired to one another')
    c.rule('same start', 'the first step after a reset returns what the first step after construction returns')
    c.rule('actions', 'an action changes the set point of its own well: rates by up to a fifth, bottom-hole pressures by up to 5 MPa, before the step')
    c.rule('one step', 'a step advances the simulator once, by the configured time step')
    c.rule('observation', 'the observation is the scaled pressure and the water saturation of the new state')
    c.rule('reward', 'the reward is the oil mass lost in that step, in millions of kg')
    c.rule('end of episode', 'the episode ends exactly when the step limit is reached')
    c.rule('failure', 'a failed step ends the episode with the penalty and says so')
    e = guarded(c, 'same construction', 'construction', Env, c)
    if e is None:
        return
    guarded(c, 'same construction', 'construction', c29_build, c, e, 0)
    r = guarded(c, 'one step', 'first step', c29_step, c, e, e.st0, 0, 1)
    if r is None:
        return
    first = r
    r2 = guarded(c, 'one step', 'second step', c29_step, c, e, first[0][True][0], 0, 2)
    for what, s in (('after a successful step', first[0][True][0]), ('after a failed step', first[0][False][0])) + \
            ((('after two steps', r2[0][True][0]),) if r2 else ()):
        guarded(c, 'same start', what, c29_reset, c, e, s, first, what)


def c29_build(c, e, g):
    w, ip = e.w, e.ip
    made = {m[0]: m for m in e.made if m[1] == g}
    lab = 'construction' if g == 0 else 'reset'
    for k in e.kinds:
        n = sum(1 for m in e.made if m[0] == k and m[1] == g)
        if not c.ok('same construction', '%s: %s' % (lab, k), k in made and n == 1, '%s is not created' % k, where=e.cls.module.name):
            return
    ref = {k: m[3] for k, m in made.items()}
    s = {k: m[2] for k, m in made.items()}

    def src(v):
        n = ip.node(e.st0, v) if not isinstance(v, Ref) else None
        return nd.show(n, 6) if n is not None else 'Ref'
    wiring = (('Fluid', 'reservoir', 'Reservoir'), ('WellManager', 'reservoir', 'Reservoir'), ('Simulator', 'reservoir', 'Reservoir'),
              ('Simulator', 'fluid', 'Fluid'), ('Simulator', 'well_manager', 'WellManager'))
    for k, p, target in wiring:
        c.ok('same construction', '%s: %s of %s' % (lab, p, k), s[k].get(p) == ref[target], '%s gets %s as %s' % (k, s[k].get(p), p), where=e.cls.module.name)
    sect = {'Reservoir': ('config', 'reservoir'), 'WellManager': ('wells_config', 'wells'), 'Fluid': ('config', 'fluid'), 'Simulator': ('sim_params', 'simulation')}
    for k, (p, name) in sect.items():
        init = w.find_class(k).lookup('__init__').node.args.args
        cand = [v for a, v in s[k].items() if isinstance(v, N)]
        cfg = [v for v in cand if any(x.op == 'str' and x.args[0] == name for x in nd.walk(v))
               and any(x.op == 'sym' and x.args[0] == 'json' for x in nd.walk(v))]
        c.ok('same construction', '%s: section of %s' % (lab, k), len(cfg) == 1, '%s is built from %s' % (k, [nd.show(v, 4) for v in cand]), where=e.cls.module.name)
        for v in cfg:
            files = [x for x in nd.walk(v) if x.op == 'file']
            c.ok('same construction', '%s: file for %s' % (lab, k), bool(files) and all(x.args[0] is e.path for x in files),
                 '%s is read from %s' % (k, [nd.show(x, 3) for x in files]), where=e.cls.module.name)
    for k, p, name in (('Fluid', 'fluid', 'Fluid'), ('Reservoir', 'reservoir', 'Reservoir')):
        pass


def oil_mass(e, st, prefix):
    """sum over cells of porosity, oil saturation, oil density and cell volume"""
    ip = e.ip
    g = lambda *p: ip.node(st, e.get(st, *p))
    phi, V = g('reservoir', 'porosity'), g('reservoir', 'cell_volume')
    so, rho = g('fluid', 's_o'), g('fluid', 'rho_o')
    return nd.mul(V, mk('red', 'sum', nd.mul(phi, so, rho))), mk('red', 'sum', nd.mul(phi, so, rho, V))


def c29_step(c, e, st, g, count):
    w, ip = e.w, e.ip
    lab = 'step %d' % count
    before = [ip.node(st, ip.getattr(x, 'control_value', st, None)) for x in ip.seq(e.get(st, 'well_manager', 'wells'), st)]
    m0 = oil_mass(e, st, '')[1]
    out, ev, k = e.step(c, st)
    steps = [x for x in ev if x.kind == 'step']
    c.ok('one step', lab, len(steps) == 1 and not steps[0].loops and not [p for p in steps[0].pc if p not in st.pc],
         '%d calls of the simulator, conditions %s' % (len(steps), [nd.show(p, 3) for x in steps for p in x.pc if p not in st.pc]), where=steps[0].where() if steps else '')
    s0 = steps[0]
    dts = [x for x in nd.walk(s0.args[0]) if x.op == 'get' and string('time_step_days') in x.args]
    if not dts:
        c.ok('one step', lab + ' length', False, 'step length %s does not come from time_step_days' % nd.show(s0.args[0], 4), where=s0.where())
    else:
        c.equal('one step', lab + ' length', s0.args[0], nd.mul(dts[0], num(86400)), w, where=s0.where(), what='length of a step')
        c.ok('one step', lab + ' default', dts[0].args[2] is ONE, 'without a configured step the length is %s days' % nd.show(dts[0].args[2]), where=s0.where())
    A = e.A
    mp = {nd.idx(e.action, (num(i),)): A[i] for i in range(len(A))}
    rng = [('action', -1, 1, 'lin')]
    for i, (b, md) in enumerate(zip(before, e.MODES)):
        want = nd.mul(b, nd.add(ONE, nd.mul(num(Fr(1, 5)), A[i]))) if md['control_type'] == 'rate' else nd.add(b, nd.mul(num(5), A[i]))
        c.equal('actions', '%s, %s well %d' % (lab, md['control_type'], i), nd.subst(s0.args[1 + i], mp), nd.subst(want, mp), w, ranges=rng, where=s0.where(),
                what='set point of well %d' % i)
    for o in (True, False):
        s, n, v = out[o]
        what = '%s, %s' % (lab, 'successful' if o else 'failed')
        p, sw = ip.node(s, e.get(s, 'fluid', 'pressure')), ip.node(s, e.get(s, 'fluid', 's_w'))
        want = [nd.idx(nd.mul(p, num(Fr(1, 10 ** 7))), ('flat',)), nd.idx(sw, ('flat',))]
        ob = n[0]
        while ob.op == 'idx' and ob.args[1] == ('flat',):
            ob = ob.args[0]
        if ob.op != 'cat':
            raise AnalysisError('observation is ' + nd.show(ob, 3))
        parts = [x for x in ob.args if isinstance(x, N)]
        if len(parts) == 1 and parts[0].op in ('list', 'tuple'):
            parts = list(parts[0].args)
        parts = [x for x in parts if x.op not in ('num', 'none')]
        parts = [nd.idx(x, ('flat',)) for x in parts]
        c.ok('observation', what + ' parts', len(parts) == 2, 'the observation has %d parts' % len(parts))
        for nm, x, y in zip(('pressure', 'water saturation'), parts, want):
            c.equal('observation', '%s, %s' % (what, nm), x, y, w, what=nm + ' in the observation')
    s, n, v = out[True]
    m1 = oil_mass(e, s, '')[1]
    c.equal('reward', lab, n[1], nd.mul(nd.sub(m0, m1), num(Fr(1, 10 ** 6))), w, what='reward')
    c.equal('end of episode', lab, nd.truthy(n[2]), nd.ge(num(count), e.maxs), w, ranges=[('max_steps', 1, 5, 'int')], what='end of the episode', points=100)
    c.ok('end of episode', lab + ', truncated', n[3] is FALSE, 'truncated is %s' % nd.show(n[3], 3))
    c.ok('failure', lab + ', flag of a success', flag_of(e, s, v) is TRUE, 'info is %s' % nd.show(n[4], 4))
    s, n, v = out[False]
    c.ok('failure', lab + ', penalty', n[1] is num(-1000), 'a failed step is rewarded with %s' % nd.show(n[1], 3))
    c.ok('failure', lab + ', end', n[2] is TRUE, 'after a failed step the episode %s' % nd.show(n[2], 3))
    c.ok('failure', lab + ', flag of a failure', flag_of(e, s, v) is FALSE, 'info is %s' % nd.show(n[4], 4))
    return out, k


def flag_of(e, s, v):
    cell = s.heap[v[4].loc]
    return cell.entries.get(string('converged'))


def c29_reset(c, e, st, first, what):
    w, ip = e.w, e.ip
    g = e.gen('Reservoir')
    ex, ev, _ = e.call(st, 'reset')
    if len(ex) != 1:
        raise AnalysisError('%d exits of reset' % len(ex))
    _, s, v = ex[0]
    # generation g on every kind
    gens = {k: e.gen(k) - 1 for k in e.kinds}
    for k in e.kinds:
        c.ok('same construction', '%s: %s is rebuilt' % (what, k), gens[k] >= g, '%s is not rebuilt by reset' % k, where=e.cls.module.name)
    if any(gens[k] < g for k in gens):
        return
    c29_build(c, e, g)
    init, base = {m[0]: m for m in e.made if m[1] == 0}, {m[0]: m for m in e.made if m[1] == g}
    for k in e.kinds:
        for p in set(init[k][2]) | set(base[k][2]):
            a, b = init[k][2].get(p), base[k][2].get(p)
            if isinstance(a, Ref) or isinstance(b, Ref):
                continue        # wiring is checked on its own
            c.ok('same construction', '%s: %s of %s' % (what, p, k), a is b or a is not None and b is not None and ip.node(s, a) is ip.node(s, b),
                 'construction passes %s, reset passes %s' % (a, b), where=e.cls.module.name)
    obs = ip.seq(v, s)
    out, ev, k2 = e.step(c, s)
    ren = {}

    def rn(x):
        if x.op == 'sym' and isinstance(x.args[0], str):
            t = x.args[0]
            if t.startswith('g%d.' % g):
                t = 'g0.' + t[len('g%d.' % g):]
            elif t.startswith('now%d.' % k2):
                t = 'now%d.' % first[1] + t[len('now%d.' % k2):]
            if t != x.args[0]:
                y = sym(t)
                if x in nd.SHAPES:
                    nd.SHAPES[y] = nd.SHAPES[x]
                return y
        return x
    for o in (True, False):
        for i, nm in enumerate(('observation', 'reward', 'end of the episode', 'truncation')):
            a, b = first[0][o][1][i], out[o][1][i]
            mp = {x: rn(x) for x in nd.walk(b) if x.op == 'sym' and rn(x) is not x}
            b = nd.subst(b, mp)
            if nd.is_bool(a):
                c.equal('same start', '%s, %s (%s)' % (what, nm, 'successful' if o else 'failed'), b, a, w, ranges=[('max_steps', 1, 5, 'int')], points=100,
                        what=nm + ' of the first step after a reset')
            else:
                c.ok('same start', '%s, %s (%s)' % (what, nm, 'successful' if o else 'failed'), a is b,
                     'after construction %s, after reset %s' % (nd.show(a, 6), nd.show(b, 6)), where=locate(w, b))


# ---------------------------------------------------------------------------- C30
FIELDS = {'pressure': 'pressure', 'sw': 's_w', 'sg': 's_g', 'so': 's_o'}


def calls(ev, *names):
    return [e for e in ev if e.kind == 'call' and str(e.name).split('.')[-1] in names]


def text_items(ev):
    """the text of a file as a list of strings and (formatted value, event)"""
    out = []

    def add(n, e):
        if n.op == 'str':
            out.append(n.args[0])
        elif n.op == 'fstr':
            for a in n.args:
                add(a, e)
        elif n.op == 'fmt':
            out.append((n.args[0], e))
        else:
            out.append((n, e))
    for e in ev:
        a = [x for x in e.args if isinstance(x, N)]
        add(a[-1], e)
    return out


def C30(c):
    c.rule('compressed file', 'the compressed file holds the final pressure, water, gas and oil saturation under those names')
    c.rule('summary', 'minimum, maximum and mean in the summary belong to the field named on the line (pressure in MPa)')
    c.rule('balances', 'in, out and net in the summary belong to the phase named on the line')
    c.rule('full arrays', 'an array in the summary is the field named in its heading')
    c.rule('pictures', 'a final picture shows the field named in its title')
    c.rule('picture axes', 'the direction along the horizontal axis is the one the axis is labelled with')
    c.rule('point file', 'the structured grid has its points in the order of the values, first coordinate fastest, and values under their names')
    c.rule('cell file', 'the cell file holds each field under its name, on node coordinates spaced by the cell sizes')
    r = guarded(c, 'compressed file', 'run', Run, c, vtk=TRUE)
    if r is not None:
        if len(r.exits) != 1:
            c.add('compressed file', 'run', 'undecided', '%d exits of run' % len(r.exits))
            return
        st = r.exits[0][1]
        w = r.w
        F = {k: w.nodeof(w.fl, a, st) for k, a in FIELDS.items()}
        ev = [e for e in r.events if not (r.loop is not None and r.loop in e.loops)]
        for f, what in ((c30_npz, 'compressed file'), (c30_text, 'summary'), (c30_plots, 'pictures'), (c30_points, 'point file')):
            guarded(c, what, 'run', f, c, w, st, ev, F)
    guarded(c, 'cell file', 'save_to_vtk', c30_cells, c)


def c30_npz(c, w, st, ev, F):
    es = calls(ev, 'savez_compressed', 'savez')
    if not es:
        raise AnalysisError('no compressed file is written')
    for e in es:
        for k, n in F.items():
            if k not in e.kw:
                c.ok('compressed file', k, False, 'the file has %s' % sorted(e.kw), where=e.where())
            else:
                c.equal('compressed file', k, e.kw[k], n, w, where=e.where(), what=k + ' in the compressed file')


LINES = {'Pressure': ('pressure', Fr(1, 10 ** 6)), 'Sw': ('sw', 1), 'Sg': ('sg', 1), 'So': ('so', 1)}
HEADS = (('Pressure', 'pressure', Fr(1, 10 ** 6)), ('Water', 'sw', 1), ('Gas', 'sg', 1), ('Oil', 'so', 1))


def c30_text(c, w, st, ev, F):
    import re
    wr = [e for e in calls(ev, 'write') if any(isinstance(x, N) and x.op == 'file' for x in e.args)]
    if not wr:
        raise AnalysisError('no summary is written')
    seen = set()
    line, prev = '', ''
    for it in text_items(wr):
        if isinstance(it, str):
            for ch in re.split('(\n)', it):
                if ch == '\n':
                    if line.strip():
                        prev = line
                    line = ''
                else:
                    line += ch
            continue
        n, e = it
        arr = n.op == 'call' and 'array2string' in nd.show(n.args[0])
        if arr:
            head = line if line.strip() else prev
            hit = [h for h in HEADS if h[0].lower() in head.lower()]
            if len(hit) == 1:
                _, k, f = hit[0]
                c.equal('full arrays', k, n.args[1], nd.mul(F[k], num(f)), w, where=e.where(), what='array under the heading %r' % head.strip())
            else:
                c.add('full arrays', head.strip() or '?', 'undecided', 'heading without a field name', e.where())
            continue
        m = re.match(r'\s*(\w+)', line)
        st_ = re.search(r'(\w+)\s*[=:]\s*$', line)
        if m and st_:
            a, b = m.group(1), st_.group(1)
            if a in LINES and b in ('min', 'max', 'mean'):
                k, f = LINES[a]
                want = nd.mul(num(f), mk('red', b, F[k]))
                eq_red(c, 'summary', '%s %s' % (a, b), n, want, w, e)
                seen.add((a, b))
            elif a in ('water', 'gas', 'oil') and b in ('in', 'out', 'net'):
                mb = w.attr(w.sim, 'mass_balance', st)
                g = lambda d: w.ip.node(st, w.ip.getitem(w.ip.getitem(mb, string(a), st, None), string(d), st, None))
                want = nd.sub(g('in'), g('out')) if b == 'net' else g(b)
                c.equal('balances', '%s %s' % (a, b), n, want, w, where=e.where(), what='%s of %s' % (b, a))
                seen.add((a, b))
            elif a == 'total' and b == 'net':
                mb = w.attr(w.sim, 'mass_balance', st)
                g = lambda p, d: w.ip.node(st, w.ip.getitem(w.ip.getitem(mb, string(p), st, None), string(d), st, None))
                c.equal('balances', 'total net', n, nd.add(*[nd.sub(g(p, 'in'), g(p, 'out')) for p in ('water', 'oil', 'gas')]), w, where=e.where(), what='total net')
        line += '0'
    want = [(a, b) for a in LINES for b in ('min', 'max', 'mean')] + [(a, b) for a in ('water', 'gas', 'oil') for b in ('in', 'out', 'net')]
    if not seen:
        raise AnalysisError('no line of the summary was recognised')
    for a, b in want:
        if (a, b) not in seen:
            c.ok('summary' if a in LINES else 'balances', '%s %s' % (a, b), False, 'the summary does not give %s of %s' % (b, a), where=wr[0].where())


def eq_red(c, rule, what, got, want, w, e):
    """reductions commute with a positive factor"""
    def norm(n):
        def go(x):
            if x.op == 'red' and x.args[0] in ('min', 'max', 'mean') and x.args[1].op == 'poly':
                t = nd.terms(x.args[1])
                if len(t) == 1:
                    (m, cf), = t.items()
                    if cf > 0 and cf != 1:
                        return nd.mul(num(cf), go(mk('red', x.args[0], nd.from_terms({m: 1}))))
            return nd.rebuild(x, go) if x.op in nd.ELEMWISE else x
        return go(n)
    c.equal(rule, what, norm(got), norm(want), w, where=e.where(), what=what)


TITLES = (('авлен', 'pressure', Fr(1, 10 ** 6)), ('вод', 'sw', 1), ('газ', 'sg', 1), ('Pressure', 'pressure', Fr(1, 10 ** 6)), ('ater', 'sw', 1), ('Gas', 'sg', 1),
          ('gas', 'sg', 1), ('нефт', 'so', 1))


def c30_plots(c, w, st, ev, F):
    ims = calls(ev, 'imshow')
    if not ims:
        raise AnalysisError('no final picture is drawn')
    titles = {}
    for e in calls(ev, 'set_title'):
        titles[e.args[0]] = ''.join(x.args[0] for x in nd.walk(e.args[1]) if x.op == 'str' and x in (e.args[1].args if e.args[1].op == 'fstr' else [e.args[1]]))
    xl = {e.args[0]: e.args[1] for e in calls(ev, 'set_xlabel')}
    for k, e in enumerate(ims):
        ax, data = e.args[0], e.args[1]
        t = titles.get(ax)
        hit = {(x[1], x[2]) for x in TITLES if t and x[0] in t}
        if len(hit) != 1:
            c.add('pictures', 'image %d' % k, 'undecided', 'title %r' % t, e.where())
            continue
        (f, sc), = hit
        want = nd.mul(F[f], num(sc))
        d, tr = data, False
        ts = [x for x in nd.walk(d) if x.op == 'transpose']
        if ts:
            d, tr = nd.subst(d, {x: x.args[0] for x in ts}), True
        # the layer shown
        layers = {x.args[1][2] for x in nd.walk(d) if x.op == 'idx' and isinstance(x.args[1], tuple) and len(x.args[1]) == 3}
        outer = [q for q in layers if not any(q is not r and any(y is q for y in nd.walk(r)) for r in layers)]
        if len(outer) != 1:
            raise AnalysisError('layer of a picture: ' + nd.show(d, 3))
        full = ('sl', None, None)
        slices = [x.args[1] for x in nd.walk(d) if x.op == 'idx' and isinstance(x.args[1], tuple) and len(x.args[1]) == 3 and x.args[1][2] is outer[0]]
        key = slices[0]
        if key[0] != full or key[1] != full:
            raise AnalysisError('slice of a picture')
        c.equal('pictures', 'picture of ' + f, d, nd.idx(want, key), w, where=e.where(), what='picture under the title %r' % t)
        lab = xl.get(ax)
        if lab is not None and lab.op == 'str':
            L = lab.args[0].upper()
            isx, isy = 'X' in L or 'Х' in L, 'Y' in L
            if isx != isy:
                c.ok('picture axes', 'picture of ' + f, tr == isx, 'the horizontal axis is labelled %r but shows the %s coordinate of the grid'
                     % (lab.args[0], 'first' if tr else 'second'), where=e.where())


def order_of(n):
    if n.op == 'idx' and n.args[1] in (('flat',), ('flatF',)):
        return n.args[1][0]
    os = {x.args[1] for x in nd.walk(n) if x.op == 'idx' and x.args[1] in (('flat',), ('flatF',))}
    return os.pop()[0] if len(os) == 1 else None


NAMES = {'Pressure': ('pressure', 1), 'Water_Saturation': ('sw', 1), 'Gas_Saturation': ('sg', 1), 'Oil_Saturation': ('so', 1), 'Pressure_MPa': ('pressure', Fr(1, 10 ** 6))}


def c30_points(c, w, st, ev, F):
    pts = calls(ev, 'InsertNextPoint')
    arr = calls(ev, 'numpy_to_vtk')
    if not pts or not arr:
        raise AnalysisError('no structured grid is written')
    dims = (NX, NY, NZ)
    for e in calls(ev, 'SetDimensions'):
        a = [x for x in e.args[1:]]
        if len(a) == 1:
            a = list(a[0].args) if a[0].op in ('tuple', 'list') else a
        c.ok('point file', 'dimensions', tuple(a) == dims, 'dimensions %s' % [nd.show(x) for x in a], where=e.where())
    for e in pts:
        a = list(e.args[1:])
        if len(a) == 1 and a[0].op in ('tuple', 'list'):
            a = list(a[0].args)
        axes = []
        for x in a:
            iv = [y for y in nd.walk(x) if y.op == 'iv' and y.args[0].op == 'range']
            ax = [k for k, d in enumerate(dims) for y in iv if y.args[0] is mk('range', ZERO, d, ONE)]
            axes.append(ax[0] if len(ax) == 1 else None)
        if None in axes or len(axes) != 3:
            raise AnalysisError('coordinates of a point: %s' % [nd.show(x, 3) for x in a])
        loops = []
        for l in e.loops:
            ax = [k for k, d in enumerate(dims) if l.args[0] is mk('range', ZERO, d, ONE)]
            loops.append(ax[0] if len(ax) == 1 else None)
        c.ok('point file', 'coordinates', axes == [0, 1, 2], 'a point gets the coordinates of axes %s' % axes, where=e.where())
        c.ok('point file', 'order of the points', loops == [2, 1, 0], 'loops run over axes %s from the outermost to the innermost' % loops, where=e.where())
    names = {}
    for e in calls(ev, 'SetName'):
        names[e.args[0]] = e.args[1]
    added = [x for e in calls(ev, 'AddArray') for x in e.args[1:]]
    for e in arr:
        n = e.args[0]
        res = [x for x in list(names) + added if x.op == 'call' and n in x.args]
        lab = [names[x] for x in names if x in res]
        if len(lab) != 1 or lab[0].op != 'str' or lab[0].args[0] not in NAMES:
            c.add('point file', 'values', 'undecided', 'an array without a known name', e.where())
            continue
        k, f = NAMES[lab[0].args[0]]
        c.equal('point file', lab[0].args[0], n, nd.idx(nd.mul(F[k], num(f)), ('flatF',)), w, where=e.where(), what='values of ' + lab[0].args[0])


CELLS = {'Pressure_MPa': ('fl', 'pressure', Fr(1, 10 ** 6)), 'Water_Saturation': ('fl', 's_w', 1), 'Oil_Saturation': ('fl', 's_o', 1), 'Gas_Saturation': ('fl', 's_g', 1),
         'Permeability_H': ('res', 'permeability_x', 1), 'Permeability_V': ('res', 'permeability_z', 1), 'Porosity': ('res', 'porosity', 1)}


def c30_cells(c):
    w = World(pvt=False, sources=SRC)
    ip = w.ip
    try:
        f = w.find_func('save_to_vtk')
    except AnalysisError as e:
        raise Broken(str(e))
    # every step writes the fields; the exporter sees free symbols
    st = w.st.fork()
    for a in ('pressure', 's_w', 's_g', 's_o'):
        cell = st.heap[w.fl.loc]
        attrs = dict(cell.attrs)
        attrs[a] = ip.tensor(st, grid('fluid.' + a), 'grid')
        st.heap[w.fl.loc] = OC(cell.cls, attrs, cell.base)
    n0 = len(ip.events)
    ip.run_exits(f, [w.res, w.fl], {'filename': sym('fname')}, st)
    c.absorb(ip)
    es = calls(ip.events[n0:], 'gridToVTK')
    if not es:
        raise AnalysisError('gridToVTK is not called')
    e = es[0]
    ar = [x for x in e.args]
    ar += [e.kw[k] for k in ('x', 'y', 'z')[max(0, len(ar) - 1):] if k in e.kw]
    for k, (n, d, nm) in enumerate(((NX, DX, 'x'), (NY, DY, 'y'), (NZ, DZ, 'z'))):
        got = at(ar[1 + k], scalar('idx'))
        c.equal('cell file', 'coordinates ' + nm, got, nd.mul(scalar('idx'), d), w, where=e.where(), what='node coordinate ' + nm)
        c.equal('cell file', 'number of nodes ' + nm, length(ar[1 + k]), nd.add(n, ONE), w, where=e.where(), what='number of nodes along ' + nm)
    cd = e.kw.get('cellData')
    if cd is None or cd.op != 'dict':
        raise AnalysisError('cell data is not a dictionary')
    found = {}
    for t in cd.args[1:]:
        if isinstance(t, N) and t.op == 'tuple' and t.args[0].op == 'str':
            found[t.args[0].args[0]] = t.args[1]
    c.ok('cell file', 'fields', all(k in found for k in ('Pressure_MPa', 'Water_Saturation', 'Oil_Saturation')), 'the file holds %s' % sorted(found), where=e.where())
    for k, n in found.items():
        if k in CELLS:
            o, a, f = CELLS[k]
            c.equal('cell file', k, n, nd.mul(w.nodeof(getattr(w, o), a, st), num(f)), w, where=e.where(), what=k + ' in the cell file')


# ---------------------------------------------------------------------------- C32
I, J, K = scalar('ci'), scalar('cj'), scalar('ck')
INTS = [('ci', -2, 7, 'int'), ('cj', -2, 7, 'int'), ('ck', -2, 7, 'int'), ('nx', 1, 6, 'int'), ('ny', 1, 6, 'int'), ('nz', 1, 6, 'int'), ('cell', 0, 215, 'int')]


def C32(c):
    c.rule('numbering', 'the number of a cell is its position in the flattened fields, last coordinate fastest')
    c.rule('inverse', 'converting a number to coordinates and back gives the number, and the other way round')
    c.rule('rejection', 'a well is accepted exactly when its coordinates lie inside the grid')
    c.rule('notations', 'both coordinate notations build the same well')
    w = guarded(c, 'numbering', 'construction', World, pvt=False, wells=PROD, sources=SRC)
    if w is None:
        return
    c.absorb(w.ip)
    guarded(c, 'numbering', 'conversions', c32_numbers, c, w)
    guarded(c, 'rejection', 'wells', c32_wells, c)


FLATNO = nd.add(nd.mul(nd.add(nd.mul(I, NY), J), NZ), K)


def c32_numbers(c, w):
    ip = w.ip
    inside = nd.andn(*[nd.andn(nd.ge(x, ZERO), nd.gt0(nd.sub(d, x))) for x, d in ((I, NX), (J, NY), (K, NZ))])
    st = w.st.fork()

    def call(o, names, args, extra=()):
        for nm in names:
            f = w.obj(o).cls.lookup(nm)
            if isinstance(f, FuncV):
                a = f.node.args
                need = [x.arg for x in a.args][1:]
                opt = len(a.defaults)
                av = list(args)
                av += list(extra)[:len(need) - len(av)] if len(need) > len(av) else []
                if len(av) < len(need) - opt:
                    raise AnalysisError('arguments of ' + nm)
                return f, ip.call_func(f, [o] + av[:len(need)], {}, st, None)
        return None, None
    f, v = call(w.res, ('get_cell_indices',), (I, J, K))
    n = 0
    if f is not None:
        n += 1
        c.equal('numbering', 'Reservoir.' + f.name, ip.node(st, v), FLATNO, w, cond=inside, ranges=INTS, where=fw(f), what='number of a cell')
    f, v = call(w.sim, ('_ijk_to_idx',), (I, J, K), (NX, NY))
    g, u = call(w.sim, ('_idx_to_ijk',), (scalar('cell'),), (NX, NY))
    if f is not None:
        n += 1
        c.equal('numbering', 'Simulator.' + f.name, ip.node(st, v), FLATNO, w, cond=inside, ranges=INTS, where=fw(f), what='number of a cell')
    if g is not None:
        n += 1
        u = ip.seq(u, st)
        if u is None or len(u) != 3:
            raise AnalysisError('_idx_to_ijk does not return three coordinates')
        un = [ip.node(st, x) for x in u]
        for nm, x, y in zip('ijk', un, (I, J, K)):
            c.equal('inverse', 'coordinate %s of a number' % nm, nd.subst(x, {scalar('cell'): FLATNO}), y, w, cond=inside, ranges=INTS, where=fw(g), points=300,
                    what='coordinate ' + nm)
        if f is not None:
            back = ip.call_func(f, [w.sim] + list(u) + [NX, NY][:len(f.node.args.args) - 4], {}, st, None)
            c.equal('inverse', 'number of its coordinates', ip.node(st, back), scalar('cell'), w, ranges=INTS, where=fw(g), points=300,
                    cond=nd.gt0(nd.sub(nd.mul(NX, NY, NZ), scalar('cell'))), what='number of the coordinates of a number')
    # the well's own number, at creation and as handed out by the manager
    well = w.wells()[0]
    e = w.wsym[0]
    mp = {e['i']: I, e['j']: J, e['k']: K}
    for a in ('cell_index_flat',):
        if a in w.ctor_state.heap[well.loc].attrs:
            n += 1
            c.equal('numbering', 'Well.' + a, nd.subst(w.nodeof(well, a, w.ctor_state), mp), FLATNO, w, cond=inside, ranges=INTS, what='flat number of a well')
            c.equal('numbering', 'Well.%s after a step' % a, nd.subst(after_step(w, well, a), mp), FLATNO, w, cond=inside, ranges=INTS, what='flat number of a well')
    if 'cell_index' in w.ctor_state.heap[well.loc].attrs:
        v = ip.seq(w.attr(well, 'cell_index', w.ctor_state), w.ctor_state)
        for nm, x, y in zip('ijk', v, (I, J, K)):
            c.equal('numbering', 'Well.cell_index ' + nm, nd.subst(ip.node(st, x), mp), y, w, ranges=INTS, what='coordinate of a well')
    f, v = call(w.wm, ('get_well_indices_flat',), ())
    if f is not None:
        n += 1
        x = ip.node(st, v)
        parts = list(x.args) if x.op in ('tuple', 'list') else [nd.idx(x, (ZERO,))]
        c.ok('numbering', 'number of well numbers', len(parts) == 1, '%d numbers for one well' % len(parts), where=fw(f))
        c.equal('numbering', 'WellManager.' + f.name, nd.subst(nd.subst(parts[0], {w.nodeof(well, 'cell_index_flat'): FLATNO}), mp), FLATNO, w, cond=inside,
                ranges=INTS, where=fw(f), what='flat number handed out')
    if not n:
        raise AnalysisError('no conversion between coordinates and numbers was found')


def after_step(w, well, a):
    """the attribute after a step, on whatever path wrote it"""
    ex, ev = w.step_exits()
    st = ex[0][1]
    n = w.nodeof(well, a, st)
    while n.op in ('loopval', 'mu'):
        n = n.args[2] if n.op == 'loopval' else w.ip.loop_table[n.args[0]][n][1]
    return n


def fw(f):
    from ..lib import short
    return '%s:%d (%s)' % (short(f.module.path), f.node.lineno, f.qual)


def c32_wells(c):
    w = World(pvt=False, sources=SRC)
    ip = w.ip
    st = w.st
    common = {'name': sym('n'), 'type': string('producer'), 'radius': scalar('radius'), 'control_type': string('rate'), 'control_value': scalar('value')}
    from ..world import dict_
    A = dict_(ip, st, dict(common, i=I, j=J, k=K))
    B = dict_(ip, st, dict(common, coordinates=ip.new(st, LC([(TRUE, I), (TRUE, J), (TRUE, K)]))))
    init = w.WellManager.lookup('__init__')
    if init is None:
        raise Broken('WellManager.__init__ is gone')
    inside = nd.andn(*[nd.andn(nd.ge(x, ZERO), nd.gt0(nd.sub(d, x))) for x, d in ((I, NX), (J, NY), (K, NZ))])
    wells = []
    for lab, cfg in (('i, j, k', A), ('coordinates', B)):
        s0 = st.fork()
        obj = ip.new(s0, OC(w.WellManager, {}))
        lst = ip.new(s0, LC([(TRUE, cfg)]))
        ex = [x for x in ip.run_exits(init, [obj, lst, w.res], {}, s0) if x[0] == 'return']
        c.absorb(ip)
        if not ex:
            c.ok('rejection', lab, False, 'every well is rejected', where=fw(init))
            continue
        acc = nd.orn(*[nd.andn(*[p for p in s.pc if p not in s0.pc]) for _, s, _ in ex])
        k0 = [k for k in ip.assume if any(x in (I, J, K) for x in nd.walk(k))]
        c.equal('rejection', lab, acc, inside, w, ranges=INTS, points=600, where=fw(w.find_class('Well').lookup('__init__') or init), what='acceptance of a well')
        s = ex[0][1]
        ws = ip.seq(ip.getattr(obj, 'wells', s, None), s)
        c.ok('notations', lab + ': one well', ws is not None and len(ws) == 1, 'one configured well gives %s wells' % (len(ws) if ws is not None else '?'), where=fw(init))
        if ws:
            cell = s.heap[ws[0].loc]
            wells.append((lab, {a: safe(ip, s, v) for a, v in cell.attrs.items()}))
    if len(wells) == 2:
        a, b = wells[0][1], wells[1][1]
        for k in sorted(set(a) | set(b)):
            x, y = a.get(k), b.get(k)
            if x is None or y is None:
                c.ok('notations', k, False, 'only one notation sets ' + k, where=fw(init))
            elif x is y:
                c.add('notations', k, 'proved')
            elif nd.shape_of(x) == 'scalar':
                c.equal('notations', k, x, y, w, ranges=INTS, where=fw(init), what=k)
            elif 'Ref' not in nd.show(x, 3):
                c.ok('notations', k, x is y, '%s against %s' % (nd.show(x, 3), nd.show(y, 3)), where=fw(init))


def safe(ip, s, v):
    try:
        return ip.node(s, v)
    except Exception:
        return sym('opaque', 'Ref')


# ---------------------------------------------------------------------------- C34
LISTINGS = [[1, 2, 3], [10, 9, 8, 11], [100, 20, 3], [5, 50, 500, 1500, 15, 1], [1], list(range(12, 0, -1))]
OTHERS = ['notes.txt', 'cover.png', 'run_step_7.png.bak', 'run_step_.png', 'run_step_4_old.png', 'run_step_6.jpg']


def C34(c):
    c.rule('frames', 'the animation shows every picture of a step once, ordered by the number of the step, and nothing else')
    c.rule('last frame', 'the animation of a run ends with the final picture')
    c.rule('run', 'the animation of a run shows the pictures the run has written')
    c.rule('speed', 'the animation has the requested number of pictures per second')
    guarded(c, 'frames', 'utils.create_animation', c34_utils, c)
    guarded(c, 'frames', 'Simulator._create_animation', c34_sim, c)
    guarded(c, 'run', 'Simulator.run', c34_run, c)


def frames_of(ev, m):
    """[(events, frames, fps node)] for the animations written, in the model"""
    from ..strs import Model
    out = []

    def holds(e, env, drop=()):
        return all(m.truth(p, env) for p in e.pc if p not in drop)
    for e in calls(ev, 'mimsave', 'mimwrite'):
        if holds(e, {}):
            a = [x for x in e.args if isinstance(x, N)]
            out.append((e, [v for v, _ in m.seq(a[1], {})], e.kw, a[0]))
    ws = calls(ev, 'get_writer')
    aps = calls(ev, 'append_data')
    for e in ws:
        if not holds(e, {}):
            continue
        fr = []
        for a in aps:
            if a.args[0].op != 'call' or not nd.contains(a.args[0].args[0], lambda x: x.op == 'sym' and 'get_writer' in str(x.args)):
                raise AnalysisError('append_data of ' + nd.show(a.args[0], 3))
            img = a.args[1]
            if not a.loops:
                if holds(a, {}):
                    fr.append(m.val(img, {}))
                continue
            if len(a.loops) != 1:
                raise AnalysisError('pictures added in nested loops')
            base = a.loops[0].args[0]
            for v, b in m.seq(base, {}):
                b = dict(b)
                b[mk('elem', base)] = v
                b[mk('iv', base)] = v
                if holds(a, b):
                    fr.append(m.val(img, b))
        out.append((e, fr, e.kw, e.args[0]))
    return out


def names_of(fr):
    if not all(isinstance(x, tuple) and x[0] == 'image' for x in fr):
        raise AnalysisError('a frame is not a picture read from a file')
    return [x[1] for x in fr]


def c34_frames(c, rule, what, ev, m, want, e0, lit=()):
    what, _, model = what.partition(', ')
    tally = c.__dict__.setdefault('c34', {})

    def say(ok, detail, where):
        k = (rule, what)
        if k not in tally:
            tally[k] = {'rule': rule, 'construct': what, 'status': 'agreed', 'detail': '', 'where': '', 'n': 0}
            c.obl.append(tally[k])
        t = tally[k]
        t['n'] += 1
        if t['status'] == 'agreed':
            t['detail'] = '%d directory listings' % t['n']
        if not ok and t['status'] == 'agreed':
            t.update(status='violated', detail='%s: %s' % (model, detail), where=where)
    r = frames_of(ev, m)
    if len(r) != 1:
        say(False, '%d animations are written for %d pictures' % (len(r), len(want)), e0.where() if e0 else '')
        return None
    e, fr, kw, path = r[0]
    got = names_of(fr)
    import os.path
    cut = lambda l: ', '.join(os.path.basename(x) for x in l)
    say(got == want, 'frames: %s; pictures in order: %s' % (cut(got), cut(want)), e.where())
    return r[0]


def listing_orders(names):
    yield sorted(names)
    yield sorted(names, reverse=True)
    yield sorted(names, key=lambda s: (hash_(s), s))


def hash_(s):
    h = 7
    for ch in s:
        h = (h * 31 + ord(ch)) % 1009
    return h


def c34_fps(c, what, r, want):
    if r is None:
        return
    e, fr, kw, path = r
    if 'fps' in kw:
        c.ok('speed', what, kw['fps'] is want, 'pictures per second: %s' % nd.show(kw['fps'], 5), where=e.where())
    else:
        c.add('speed', what, 'undecided', 'no fps given: %s' % sorted(kw), e.where())


def c34_sets(prefix):
    for ns in LISTINGS:
        files = {n: '%s_step_%d.png' % (prefix, n) for n in ns}
        yield ns, files


def c34_utils(c):
    from ..strs import Model
    w = World(pvt=False, freeze=False)
    ip = w.ip
    try:
        f = w.find_func('create_animation')
    except AnalysisError as e:
        raise Broken(str(e))
    F, O, S = sym('folder'), sym('outp'), scalar('fps')
    n0 = len(ip.events)
    ip.run_exits(f, [F, O], {f.node.args.args[2].arg if len(f.node.args.args) > 2 else 'fps': S}, w.st.fork())
    ev = ip.events[n0:]
    c.absorb(ip)
    e0 = (calls(ev, 'mimsave', 'mimwrite', 'get_writer') or [None])[0]
    if e0 is None:
        raise AnalysisError('no animation is written with imageio')
    r = None
    for e in ev:
        e.pc = tuple(p for p in e.pc if p not in w.st.pc)
    for prefix in ('run', 'a.b', 'case_step_2', 'x[1]'):
        for ns, files in c34_sets(prefix):
            for others in ([], OTHERS):
                for k, lst in enumerate(listing_orders(list(files.values()) + others)):
                    m = Model({'out': lst}, {F: 'out', O: 'out.gif', S: Fr(5)})
                    r = c34_frames(c, 'frames', 'utils.create_animation, %s, steps %s%s, order %d' % (prefix, ns, ', other files' if others else '', k), ev, m,
                                   ['out/' + files[n] for n in sorted(ns)], e0)
    c34_fps(c, 'utils.create_animation', r, S)


def c34_sim(c):
    from ..strs import Model
    w = World(pvt=False, freeze=False)
    ip = w.ip
    try:
        f = w.method(w.sim, '_create_animation')
    except AnalysisError:
        c.add('frames', 'Simulator._create_animation', 'undecided', 'no such method; the run is judged as a whole')
        return
    F, O, S = sym('folder'), sym('outp'), scalar('fps')
    n0 = len(ip.events)
    ip.run_exits(f, [w.sim, F, O], {f.node.args.args[3].arg if len(f.node.args.args) > 3 else 'fps': S}, w.st.fork())
    ev = ip.events[n0:]
    c.absorb(ip)
    e0 = (calls(ev, 'mimsave', 'mimwrite', 'get_writer') or [None])[0]
    if e0 is None:
        raise AnalysisError('no animation is written with imageio')
    r = None
    lits = lambda e: [p for p in e.pc if p not in w.st.pc]
    for e in ev:
        e.pc = tuple(lits(e))
    for top in ('results/run_1', 'results/x[1]_2'):
        for prefix in ('run', 'case_step_2'):
            for ns, files in c34_sets(prefix):
                for final in (True, False):
                    for k, lst in enumerate(listing_orders(list(files.values()) + OTHERS)):
                        d = top + '/intermediate'
                        up = ['intermediate', prefix + '.txt'] + ([prefix + '_final.png'] if final else [])
                        m = Model({d: lst, top: up}, {F: d, O: 'out.gif', S: Fr(5)})
                        r = c34_frames(c, 'last frame' if final else 'frames', 'Simulator._create_animation, %s/%s, steps %s, %s, order %d'
                                       % (top, prefix, ns, 'final picture' if final else 'no final picture', k), ev, m,
                                       [d + '/' + files[n] for n in sorted(ns)] + ([top + '/' + prefix + '_final.png'] if final else []), e0)
    c34_fps(c, 'Simulator._create_animation', r, S)


def c34_run(c):
    from ..strs import Model
    r = Run(c)
    w, ev = r.w, r.events
    for e in ev:
        e.pc = tuple(p for p in e.pc if p not in w.st.pc)
    get = lambda k, d: w.ip.node(w.st, w.ip.getitem(w.attr(w.sim, 'sim_params'), string(k), w.st, None))
    pics = calls(ev, 'savefig')
    inner = [e for e in pics if e.loops]
    outer = [e for e in pics if not e.loops]
    if len(inner) != 1 or len(outer) != 1:
        raise AnalysisError('%d and %d pictures are written in and after the loop' % (len(inner), len(outer)))
    cfg = {}
    for e in ev:
        for x in list(e.pc) + [a for a in e.args if isinstance(a, N)] + list(e.kw.values()):
            for y in nd.walk(x):
                if y.op == 'get' and y.args[1].op == 'str':
                    cfg.setdefault(y.args[1].args[0], set()).add(y)
                elif y.op == 'flag':
                    cfg.setdefault('$flag', set()).add(y)
    writes = calls(ev, 'mimsave', 'mimwrite', 'get_writer')
    e0 = writes[0] if writes else outer[0]
    last = None
    for out in ('run', 'x[1]', 'case_step_2', 'run_final'):
        for N_, every in ((3, 1), (12, 1), (30, 7), (1200, 100), (5, 4)):
            env = {sym('outname'): out}
            for k, v in (('total_time_days', N_), ('time_step_days', 1), ('save_interval', every), ('animation_fps', 5), ('$flag', True)):
                for y in cfg.get(k, ()):
                    env[y] = v if v is True else Fr(v)
            dirs = {}
            m = Model(dirs, env)

            def put(path):
                import os.path
                d, f = os.path.split(path)
                if f not in dirs.setdefault(d, []):
                    dirs[d].append(f)
                return path
            want = []
            e = inner[0]
            base = e.loops[-1].args[0]
            for i in range(N_):
                b = {mk('iv', base): Fr(i), mk('elem', base): Fr(i)}
                if all(m.truth(p, b) for p in e.pc):
                    want.append(put(m.val(e.args[0], b)))
            want.append(put(m.val(outer[0].args[0], {})))
            for d in list(dirs):
                dirs[d] = sorted(dirs[d], key=lambda s: (hash_(s), s))
            for d in list(dirs):
                import os.path
                p = os.path.dirname(d)
                if p in dirs:
                    dirs[p].append(os.path.basename(d))
            last = c34_frames(c, 'run', 'Simulator.run, %d steps, a picture every %d, output %s' % (N_, every, out), ev, m, want, e0)
    if last is not None:
        k = cfg.get('animation_fps', ())
        c.ok('speed', 'Simulator.run', any(last[2].get('fps') is y for y in k), 'pictures per second: %s' % (nd.show(last[2]['fps'], 4) if 'fps' in last[2] else None),
             where=last[0].where())


RULES = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}

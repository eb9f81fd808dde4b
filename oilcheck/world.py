"""Worlds: the simulator objects built by interpreting the repository's own constructors on
symbolic configurations, with every attribute a step can write replaced by a fresh symbol
(so that what is derived holds for every reachable state, not just the initial one)."""
import os
from . import nodes as nd
from .nodes import mk, num, string, sym, NONE, TRUE, FALSE, ZERO, ONE, N
from .values import *
from .interp import Interp, State, PathDead, AnalysisError


def scalar(name):
    s = sym(name)
    nd.SHAPES[s] = 'scalar'
    return s


def grid(name):
    s = sym(name)
    nd.SHAPES[s] = 'grid'
    return s


NX, NY, NZ = scalar('nx'), scalar('ny'), scalar('nz')
DX, DY, DZ = scalar('dx'), scalar('dy'), scalar('dz')
DT = scalar('dt')
TABLE_KEYS = ('pressure_MPa', 'Bo', 'Bw', 'Bg', 'mu_o_cP', 'mu_w_cP', 'mu_g_cP', 'Rs_m3m3', 'Rv_m3m3')


def dict_(ip, st, entries, base=None):
    return ip.new(st, DC({string(k): v for k, v in entries.items()}, base))


class World:
    """pvt: bool; wells: list of dicts of concrete mode strings (control_type, type, rate_type, injected_phase,
    surface_phase); solver: 'impes' | 'fully_implicit'"""

    def __init__(self, pvt=True, wells=(), solver='impes', sim=None, fluid=None, repo=None, sources=None, assume=None,
                 freeze=True, nz1=False, converged=True, amg=False):
        nd.GRID_DIMS[0] = (NX, NY, NZ)
        self.ip = ip = Interp(repo or os.environ.get('OILCHECK_REPO', '/repo'))
        if sources:
            for k, v in sources.items():
                ip.add_source(k, v)
        self.pvt_on = pvt
        self.ri_ranges = [('nz', 1, 1, 'int'), ('.k', 0, 0, 'int')] if nz1 else []
        ip.linsolve_hook = True
        ip.flags = converged
        ip.ready_all()
        self.st = st = State(dict(ip.heap0), {}, frozenset())
        self.M = {m.name: m for m in ip.modules.values()}
        ip.shape_hint[mk('list', NX, NY, NZ)] = (NX, NY, NZ)
        ip.shape_hint[mk('tuple', NX, NY, NZ)] = (NX, NY, NZ)
        for a, b in ((nd.gt0(NX), True), (nd.gt0(NY), True), (nd.gt0(NZ), True), (nd.gt0(nd.sub(NZ, ONE)), not nz1),
                     (nd.gt0(DZ), True), (nd.gt0(DX), True), (nd.gt0(DY), True), (nd.gt0(DT), True)):
            ip.assume[a] = b
        if assume:
            ip.assume.update(assume)
        self.kx = grid('cfg.permeability')
        self.kv = grid('cfg.k_vertical_fraction')
        self.phi = grid('cfg.porosity')
        dims = ip.new(st, LC([(TRUE, NX), (TRUE, NY), (TRUE, NZ)]))
        gs = ip.new(st, LC([(TRUE, DX), (TRUE, DY), (TRUE, DZ)]))
        self.rcfg = dict_(ip, st, {'dimensions': dims, 'grid_size': gs, 'porosity': self.phi,
                                   'permeability': self.kx, 'k_vertical_fraction': self.kv, 'c_rock': scalar('cfg.res.c_rock')},
                          sym('rcfg'))
        dev = sym('device')
        self.dev = dev
        ip.assume[nd.eqn(NONE, dev)] = False
        self.Reservoir = self.find_class('Reservoir')
        self.Fluid = self.find_class('Fluid')
        self.WellManager = self.find_class('WellManager')
        self.Simulator = self.find_class('Simulator')
        self.res = ip.instantiate(self.Reservoir, [self.rcfg, dev], {}, st, None)
        fent = {'pressure': grid('cfg.pressure_MPa'), 's_w': grid('cfg.s_w'), 's_g': grid('cfg.s_g'),
                'relative_permeability': dict_(ip, st, {k: v for k, v in (fluid or {}).get('rp', {}).items()}, sym('rpcfg')),
                'capillary_pressure': dict_(ip, st, {}, sym('pccfg')),
                'capillary_pressure_og': dict_(ip, st, {}, sym('pcgcfg'))}
        for k in ('mu_oil', 'mu_water', 'mu_gas', 'rho_oil', 'rho_water', 'rho_gas', 'c_oil', 'c_water', 'c_gas', 'c_rock'):
            fent[k] = scalar('cfg.' + k)
        if pvt:
            fent['pvt_path'] = sym('cfg.pvt_path')
            ip.assume[nd.truthy(fent['pvt_path'])] = True
        else:
            fent['pvt_path'] = NONE
            fent['pvt'] = ip.new(st, DC({}, None))
        self.fcfg = dict_(ip, st, fent, sym('fcfg'))
        self.ctor_events = len(ip.events)
        self.fl = ip.instantiate(self.Fluid, [self.fcfg, self.res, dev], {}, st, None)
        self.resolve_unions(self.fl)
        # wells
        wl = []
        self.wsym = []
        for n, w in enumerate(wells):
            p = 'w%d.' % n
            e = {'name': sym(p + 'name'), 'type': string(w['type']), 'i': scalar(p + 'i'), 'j': scalar(p + 'j'), 'k': scalar(p + 'k'),
                 'radius': scalar(p + 'radius'), 'control_type': string(w['control_type']), 'control_value': scalar(p + 'value'),
                 'rate_type': string(w.get('rate_type', 'reservoir')), 'injected_phase': string(w.get('injected_phase', 'water'))}
            if w.get('surface_phase'):
                e['surface_phase'] = string(w['surface_phase'])
            if w.get('limits'):
                lims = {k: scalar(p + 'lim.' + k) for k in w['limits']}
                e['limits'] = dict_(ip, st, lims)
            if w.get('bhp_min'):
                e['bhp_min'] = scalar(p + 'bhp_min')
            if w.get('at') is not None:
                e.update({c: self.wsym[w['at']][c] for c in 'ijk'})      # in the cell of an earlier well
            for c, d in (('i', NX), ('j', NY), ('k', NZ)):
                ip.assume[nd.gt0(nd.sub(d, e[c]))] = True
                ip.assume[nd.gt0(nd.neg(e[c]))] = False
                ip.assume[nd.ge(e[c], ZERO)] = True
            e2 = dict_(ip, st, e)
            wl.append((TRUE, e2))
            self.wsym.append(e)
        self.wcfg = ip.new(st, LC(wl))
        self.wm = ip.instantiate(self.WellManager, [self.wcfg, self.res], {}, st, None)
        sent = {'solver_type': string(solver), 'debug_component_balance': FALSE, 'pressure_solver': string('cg'), 'pressure_float64': FALSE,
                'max_time_step_attempts': scalar('cfg.max_attempts')}
        ip.assume[nd.gt0(scalar('cfg.max_attempts'))] = True
        for k, v in (sim or {}).items():
            if v is None:
                sent.pop(k, None)       # not configured
            else:
                sent[k] = v
        self.scfg = dict_(ip, st, sent, sym('sim_params'))
        ip.assume[nd.eqn(mk('item', sym('environ'), string('OIL_DEBUG_COMPONENT')), string('1'))] = False
        self.sim = ip.instantiate(self.Simulator, [self.res, self.fl, self.wm, self.scfg, dev], {}, st, None)
        self.setobj(self.sim, 'debug_component_balance', FALSE)
        if amg:
            self.stub_amg()
        self.ctor_state = st.fork()
        self.frozen = {}
        if freeze:
            self.freeze()

    # ---------------------------------------------------------------- helpers
    def stub_amg(self):
        """the multigrid pressure solver as an uninterpreted function"""
        ip = self.ip
        for m in ip.modules.values():
            if m.name.endswith('pressure_amg'):
                for nm, f in m.env.items():
                    if isinstance(f, FuncV) and f.module is m and not nm.startswith('_'):
                        def stub(ip, st, args, kw, nm=nm):
                            s = sym('amg.' + nm)
                            return ip.tensor(st, s, 'flat')
                        ip.stubs[f.qual] = stub
                return
        raise AnalysisError('module pressure_amg not found')

    def find_class(self, name):
        for m in self.ip.modules.values():
            v = m.env.get(name)
            if isinstance(v, ClassV) and v.module is m:
                return v
        raise AnalysisError('class %s not found' % name)

    def find_func(self, name, module=None):
        for m in self.ip.modules.values():
            if module and m.name != module:
                continue
            v = m.env.get(name)
            if isinstance(v, FuncV) and v.module is m:
                return v
        raise AnalysisError('function %s not found' % name)

    def obj(self, r):
        return self.st.heap[r.loc]

    def setobj(self, r, a, v):
        c = self.st.heap[r.loc]
        at = dict(c.attrs)
        at[a] = v
        self.st.heap[r.loc] = OC(c.cls, at, c.base)

    def resolve_unions(self, r):
        """world choice: the optional object exists (the PVT table loaded)"""
        c = self.obj(r)
        for a, v in list(c.attrs.items()):
            while isinstance(v, UnionV):
                v = v.a if isinstance(v.a, Ref) else v.b
                self.setobj(r, a, v)

    def attr(self, r, a, st=None):
        return self.ip.getattr(r, a, st or self.st, None)

    def nodeof(self, r, a, st=None):
        st = st or self.st
        return self.ip.node(st, self.ip.getattr(r, a, st, None))

    def objs(self):
        out = [('res', self.res), ('fluid', self.fl), ('sim', self.sim), ('wm', self.wm)]
        w = self.wells()
        for n, x in enumerate(w):
            out.append(('well%d' % n, x))
        return out

    def wells(self):
        v = self.attr(self.wm, 'wells')
        if isinstance(v, Ref) and isinstance(self.st.heap[v.loc], LC):
            return [x for _, x in self.st.heap[v.loc].items]
        return []

    def freeze(self):
        """replace everything one step writes by a fresh symbol"""
        ip = self.ip
        flags = ip.flags
        for rnd in range(3):
            n0 = len(ip.events)
            st = self.st.fork()
            # what a converged step writes is what an arbitrary state differs in from the initial one
            ip.flags = True if flags is False else flags
            try:
                self.step_raw(st, DT)
            except PathDead:
                pass
            ip.flags = flags
            names = {r.loc: nm for nm, r in self.objs()}
            new = {}
            for e in ip.events[n0:]:
                if e.kind == 'setattr':
                    o = e.args[0]
                    if o.loc in names:
                        new[(o.loc, e.name[1])] = True
                elif e.kind == 'mutate':
                    for loc in e.args[0]:
                        for nm, r in self.objs():
                            for a, v in self.obj(r).attrs.items():
                                if isinstance(v, Ref) and v.loc == loc:
                                    new[(r.loc, a)] = True
            # dict attributes with written entries
            for e in ip.events[n0:]:
                if e.kind == 'setitem':
                    o = e.args[0]
                    for nm, r in self.objs():
                        for a, v in self.obj(r).attrs.items():
                            self.freeze_dict(nm + '.' + a, v, o, e.name)
            new = {k: v for k, v in new.items() if k not in self.frozen}
            del ip.events[n0:]
            if not new:
                break
            for (loc, a) in new:
                c = self.st.heap[loc]
                v = c.attrs.get(a, UNDEF)
                nm = names[loc] + '.' + a
                if v is UNDEF:
                    continue
                n = ip.node(self.st, v) if not isinstance(v, UnionV) else None
                s = sym(nm)
                if ip.is_tensor(self.st, v):
                    sh = nd.shape_of(n)
                    if ip.shape(self.st, v) == 'grid' or sh == 'grid' or n.op in ('poly',):
                        nd.SHAPES[s] = 'grid'
                    x = ip.tensor(self.st, s, 'grid' if nd.SHAPES.get(s) == 'grid' else None)
                elif isinstance(v, N):
                    if n.op in ('num', 'poly'):
                        nd.SHAPES[s] = 'scalar'
                    x = s
                else:
                    x = s
                self.frozen[(loc, a)] = s
                at = dict(c.attrs)
                at[a] = x
                self.st.heap[loc] = OC(c.cls, at, c.base)

    def freeze_dict(self, nm, v, o, key):
        """freeze entry `key` of dict cell o if reachable from v"""
        ip = self.ip
        if not isinstance(v, Ref):
            return
        c = self.st.heap.get(v.loc)
        if not isinstance(c, DC):
            return
        if v == o:
            x = c.entries.get(key, UNDEF)
            if isinstance(x, N) and (v.loc, key) not in self.frozen:
                s = scalar(nm + '.' + nd.show(key).strip("'"))
                self.frozen[(v.loc, key)] = s
                e = dict(c.entries)
                e[key] = s
                self.st.heap[v.loc] = DC(e, c.base)
            return
        for k, x in c.entries.items():
            self.freeze_dict(nm + '.' + nd.show(k).strip("'"), x, o, key)

    def method(self, r, name):
        c = self.obj(r).cls
        f = c.lookup(name)
        if not isinstance(f, FuncV):
            raise AnalysisError('method %s.%s not found' % (c.name, name))
        return f

    def step_raw(self, st, dt):
        return self.ip.call_func(self.method(self.sim, 'run_step'), [self.sim, dt], {}, st, None)

    def step_exits(self, dt=DT):
        n0 = len(self.ip.events)
        ex = self.ip.run_exits(self.method(self.sim, 'run_step'), [self.sim, dt], {}, self.st)
        return ex, self.ip.events[n0:]

    def call(self, r, name, args, kw=None, st=None):
        st = st if st is not None else self.st.fork()
        n0 = len(self.ip.events)
        v = self.ip.call_func(self.method(r, name), [r] + list(args), kw or {}, st, None)
        return v, st, self.ip.events[n0:]

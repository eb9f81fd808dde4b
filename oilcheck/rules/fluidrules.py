"""Fluid properties, tables and units: C08 C22 C24 C25 C26 C35."""
from fractions import Fraction as Fr
from .. import nodes as nd
from ..nodes import num, sym, string, mk, ZERO, ONE, TRUE, FALSE, NONE, N
from ..world import DT, grid, scalar, World
from ..values import FuncV, Ref, OC, DC, LC
from ..interp import AnalysisError, State
from ..impes import Step, Ref3, System
from ..lib import guarded, locate, Broken, short
from ..ri import equiv
from .flow import SRC
from .state import SWC, SOR, SGC, RP, Run

PATH = sym('cfg.pvt_path')
P = grid('pressure.arg')
SW, SG = grid('s_w.arg'), grid('s_g.arg')


class Fl:
    """one world and the functions of its fluid object"""

    def __init__(self, c, **kw):
        self.w = World(sources=SRC, **kw)
        self.c = c
        c.absorb(self.w.ip)
        self.dims = self.w.attr(self.w.res, 'dimensions')

    def method(self, name):
        f = self.w.obj(self.w.fl).cls.lookup(name)
        if f is None:
            raise Broken('Fluid.%s is gone' % name)
        return f

    def call(self, name, *args, **kw):
        self.method(name)
        w = self.w
        av = [w.ip.tensor(w.st, a, 'grid') if isinstance(a, N) and nd.shape_of(a) == 'grid' else a for a in args]
        v, st, ev = w.call(w.fl, name, av, kw)
        self.c.absorb(w.ip)
        self.c.worlds -= 1
        self.st = st
        return v

    def node(self, name, *args, **kw):
        v = self.call(name, *args, **kw)
        return self.w.ip.node(self.st, v)

    def nodes(self, name, n, *args, **kw):
        v = self.call(name, *args, **kw)
        if isinstance(v, tuple):
            if len(v) != n:
                raise AnalysisError('%s returns %d values, not %d' % (name, len(v), n))
            return [self.w.ip.node(self.st, x) for x in v]
        return [self.w.ip.node(self.st, self.w.ip.getitem(v, num(i), self.st, None)) for i in range(n)]

    def spec(self, fn, *args):
        w = self.w
        f = w.find_func(fn, 'oilspec')
        st = w.st.fork()
        av = [w.ip.tensor(st, a, 'grid') if isinstance(a, N) and nd.shape_of(a) == 'grid' else a for a in args]
        return w.ip.node(st, w.ip.call_func(f, av, {}, st, None))

    def col(self, name, p=P):
        return self.spec('column_or_zero' if name == 'Rv_m3m3' else 'column', PATH, p, string(name), self.dims)

    def attr(self, name):
        return self.w.nodeof(self.w.fl, name)


def fl(c, rule, **kw):
    return guarded(c, rule, 'interpretation', Fl, c, **kw)


# ---------------------------------------------------------------------------- C08
MD = num(9.869233e-16)
CFG = lambda k: scalar('cfg.' + k)


def C08(c):
    c.rule('fluid units', 'configured pressures, viscosities and compressibilities are held in Pa, Pa s and 1/Pa')
    c.rule('reservoir units', 'configured permeability is held in m2')
    c.rule('table units', 'tables are read at the pressure in MPa and tabulated viscosities are turned into Pa s')
    c.rule('well units', 'well rates reach the pressure equation in m3/s and bottom-hole pressures in Pa')
    c.rule('time unit', 'a step of a run is its length in days times 86400')
    F = fl(c, 'fluid units', pvt=False)
    if F is not None:
        guarded(c, 'fluid units', 'construction', c08_units, c, F)
    F = fl(c, 'table units', pvt=True)
    if F is not None:
        guarded(c, 'table units', 'viscosities', c08_tables, c, F)
    from .wells import W
    for lab, m in (('water injector', W(type='injector')), ('reservoir-rate producer', W()), ('pressure-controlled producer', W(control_type='bhp')),
                   ('pressure-controlled injector', W(type='injector', control_type='bhp'))):
        for pvt in (False, True):
            what = '%s, %s' % (lab, 'tables' if pvt else 'no tables')
            s = guarded(c, 'well units', what, Step, c, pvt=pvt, wells=[m], sources=SRC)
            if s is not None:
                guarded(c, 'well units', what, c08_well, c, s, m, what)
    r = guarded(c, 'time unit', 'run', Run, c)
    if r is not None:
        guarded(c, 'time unit', 'run', c08_time, c, r)


def c08_units(c, F):
    w = F.w
    f = lambda o, a: w.ip.node(w.ctor_state, w.ip.getattr(o, a, w.ctor_state, None))
    e6 = num(10 ** 6)
    c.equal('fluid units', 'initial pressure', f(w.fl, 'pressure'), nd.mul(grid('cfg.pressure_MPa'), e6), w, what='pressure after construction')
    for a, b in (('mu_o', 'mu_oil'), ('mu_w', 'mu_water'), ('mu_g', 'mu_gas')):
        c.equal('fluid units', a, f(w.fl, a), nd.mul(CFG(b), num(0.001)), w, what='viscosity ' + a)
    for ph, a, rho in (('water', 'c_water', 'rho_water'), ('oil', 'c_oil', 'rho_oil'), ('gas', 'c_gas', 'rho_gas')):
        got = F.node('calc_%s_density' % ph, P)
        slope = nd.sub(nd.subst(got, {P: nd.add(P, ONE)}), got)
        c.equal('fluid units', 'compressibility of ' + ph, slope, nd.mul(CFG(rho), CFG(a), num(Fr(1, 10 ** 6))), w, what='density change per Pa')
    k = nd.mul(grid('cfg.permeability'), MD)
    kv = nd.mul(k, grid('cfg.k_vertical_fraction'))
    v, st, _ = w.call(w.res, 'get_permeability_tensors' if w.obj(w.res).cls.lookup('get_permeability_tensors') else 'permeability_tensors', []) \
        if isinstance(w.obj(w.res).cls.lookup('permeability_tensors'), FuncV) else (w.attr(w.res, 'permeability_tensors'), w.st, None)
    ks = [w.ip.node(st, x) for x in v] if isinstance(v, tuple) else [w.ip.node(st, w.ip.getitem(v, num(i), st, None)) for i in range(3)]
    for nm, got, want in zip('xyz', ks, (k, k, kv)):
        c.equal('reservoir units', 'permeability along ' + nm, got, want, w, what='permeability')


def c08_tables(c, F):
    w = F.w
    Pn = w.nodeof(w.fl, 'pressure')
    for ph in 'owg':
        c.equal('table units', 'mu_' + ph, F.attr('mu_' + ph), nd.mul(F.col('mu_%s_cP' % ph, Pn), num(0.001)), w, what='viscosity from the table')
    c.equal('table units', 'rock compressibility', nd.subst(F.node('calc_total_compressibility', P, SW, SG), {SW: ZERO, SG: ZERO}),
            nd.add(nd.mul(CFG('c_rock'), num(Fr(1, 10 ** 6))), slope(F, 'Bo')), w, what='compressibility at zero water and gas')


def c08_well(c, s, m, lab):
    """the well's own terms of the right-hand side, as a multiple of the configured value"""
    S = System(s)
    e = s.w.wsym[0]
    key = (e['i'], e['j'], e['k'])
    b, d = S.rparts.get(key), S.dparts.get(key)
    scale = mk('get', sym('sim_params'), string('global_rate_scale'), num(1))
    if b is None:
        raise AnalysisError('the well has no own term in the pressure equation')
    v = e['control_value']
    if m['control_type'] == 'bhp':
        if d is None:
            raise AnalysisError('the well has no own term on the diagonal')
        c.equal('well units', lab, b, nd.mul(d, v, num(10 ** 6)), s.w, where=S.where, what='bottom-hole pressure term')
        return
    if s.w.pvt_on and m['type'] != 'injector':
        # choked and limited by cell state elsewhere (C11, C37): here only the unit of the unchoked rate
        pass
    sg = ONE if m['type'] == 'injector' else num(-1)
    from .wells import SHORT
    c.equal('well units', lab, b, nd.mul(sg, v, scale, num(Fr(1, 86400))), s.w, where=S.where, what='rate term in the pressure equation', ranges=SHORT)


def c08_time(c, r):
    for k, e in enumerate(r.steps[:1]):
        n = e.args[0]
        days = [x for x in nd.walk(n) if x.op == 'get' and string('time_step_days') in x.args]
        if not days:
            raise AnalysisError('the step does not depend on time_step_days: ' + nd.show(n, 3))
        c.equal('time unit', 'step length', n, nd.mul(days[0], num(86400)), r.w, where=e.where(), what='step in seconds')


# ---------------------------------------------------------------------------- C22
KEYS = {'Bo': 'Bo', 'Bw': 'Bw', 'Bg': 'Bg', 'mu_o': 'mu_o_cP', 'mu_w': 'mu_w_cP', 'mu_g': 'mu_g_cP', 'Rs': 'Rs_m3m3', 'Rv': 'Rv_m3m3'}


def C22(c):
    c.rule('own column', 'each entry of the evaluated table is the linear interpolation of its own column over the pressure column, held at the end values')
    c.rule('missing column', 'without a vaporised-oil column its value is zero')
    c.rule('rejection', 'a table is accepted exactly when it has pressures, they strictly increase and every column has their length')
    c.rule('property read', 'a property read by the fluid comes from the column of that name')
    F = fl(c, 'own column', pvt=True)
    if F is None:
        return
    guarded(c, 'own column', 'eval', c22_eval, c, F)
    guarded(c, 'property read', 'Fluid', c22_read, c, F)
    guarded(c, 'rejection', 'constructor', c22_reject, c)


def mpa(p):
    return nd.mul(p, num(10 ** 6))


def c22_eval(c, F):
    w = F.w
    t = w.attr(w.fl, 'pvt')
    x = grid('x.arg')
    v, st, _ = w.call(t, 'eval', [w.ip.tensor(w.st, x, 'grid')])
    raw = [k for k in w.ip.assume]
    for k, name in KEYS.items():
        got = w.ip.node(st, w.ip.getitem(v, string(k), st, None))
        want = F.col(name, mpa(x))
        c.equal('own column', k, got, want, w, what='table entry ' + k)
        if k == 'Rv':
            none = [y.args[0] for y in nd.walk(mk('tuple', got, want)) if y.op == 'ite']
            for q in none:
                if NONE in q.args:
                    c.equal('missing column', k, nd.assume(got, q, True), ZERO, w, what='vaporised oil without its column')


def c22_read(c, F):
    w = F.w
    f = w.obj(w.fl).cls.lookup('_eval_pvt')
    if f is None:
        return
    for k, name in KEYS.items():
        c.equal('property read', k, F.node('_eval_pvt', P, key=string(k)), F.col(name), w, what='property ' + k)


def c22_reject(c):
    w = World(pvt=False, sources=SRC, freeze=False)
    ip = w.ip
    cls = w.find_class('PVTTable')
    init = cls.lookup('__init__')
    path = sym('tab')
    data = {k: mk('item', sym('?'), string(k)) for k in KEYS.values()}
    obj = ip.new(w.st, OC(cls, {}))
    n0 = len(ip.events)
    ex = ip.run_exits(init, [obj, path], {}, w.st)
    c.absorb(ip)
    acc = [s for k, s, v in ex if k == 'return']
    if not acc:
        raise AnalysisError('the constructor never returns')
    base = w.st.pc
    accept = nd.orn(*[nd.andn(*[p for p in s.pc if p not in base]) for s in acc])
    # columns
    cols = {}
    for x in nd.walk(accept):
        if x.op in ('item', 'get') and isinstance(x.args[1], N) and x.args[1].op == 'str':
            cols.setdefault(x.args[1].args[0], []).append(x)
    pres = cols.get('pressure_MPa')
    if not pres:
        raise AnalysisError('acceptance does not look at the pressures')
    n, A, B, ANY = scalar('n'), scalar('pA'), scalar('pB'), scalar('pairs')
    lens = {k: scalar('len_' + k) for k in KEYS.values()}

    def name_of(x):
        ks = {y.args[1].args[0] for y in nd.walk(x) if y.op in ('item', 'get') and isinstance(y.args[1], N) and y.args[1].op == 'str'}
        return ks.pop() if len(ks) == 1 else None
    memo = {}

    def lenof(x):
        if x.op == 'fn' and x.args[0] == 'len':
            return x.args[1]
        if x.op == 'item' and x.args[1] is ZERO and x.args[0].op in ('fn', 'shape') and 'shape' in (x.args[0].op, x.args[0].args[0]):
            return x.args[0].args[-1]
        return None

    def ab(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'eq' and NONE in x.args:
            r = FALSE
        elif lenof(x) is not None:
            nm = name_of(lenof(x))
            if nm is None:
                raise AnalysisError('length of ' + nd.show(lenof(x), 4))
            r = n if nm == 'pressure_MPa' else lens[nm]
        elif x.op == 'red' and str(x.args[0]).strip("'") in ('any', 'all') or x.op == 'red' and getattr(x.args[0], 'op', '') == 'str':
            kind = x.args[0] if isinstance(x.args[0], str) else x.args[0].args[0]
            body = x.args[1]
            mp = {}
            for y in nd.walk(body):
                if y.op == 'idx' and name_of(y) == 'pressure_MPa':
                    mp[y] = pair(y)
            b = nd.subst(body, mp)
            if any(y.op in ('item', 'get') for y in nd.walk(b)):
                raise AnalysisError('condition on ' + nd.show(body, 4))
            has = nd.gt0(ANY)
            # exists / forall over neighbouring pairs: decided for one arbitrary pair
            r = nd.andn(has, nd.truthy(b)) if kind == 'any' else nd.orn(nd.notn(has), nd.truthy(b))
        else:
            r = nd.rebuild(x, ab)
        memo[x] = r
        return r

    def pair(y):
        k = y.args[1]
        k = k if isinstance(k, tuple) else (k,)
        if all(x in FULLSLICES for x in k[:-1]) and isinstance(k[-1], tuple) and k[-1][0] == 'sl':
            if k[-1][1:] in ((1, None), (ONE, None)):
                return A
            if k[-1][1:] in ((None, -1), (None, num(-1)), (0, -1), (ZERO, num(-1))):
                return B
        raise AnalysisError('pressures indexed by %r' % (k,))
    got = ab(accept)
    rest = [x for x in nd.walk(got) if x.op in ('item', 'get', 'red', 'loopval', 'mu', 'call')]
    if rest:
        raise AnalysisError('acceptance depends on ' + nd.show(rest[0], 4))
    want = nd.andn(nd.gt0(n), nd.orn(nd.notn(nd.gt0(ANY)), nd.gt0(nd.sub(A, B))), *[nd.eqn(x, n) for x in lens.values()])
    rg = [('n', 0, 2, 'int'), ('len_', 0, 2, 'int'), ('pA', 0, 3, 'int'), ('pB', 0, 3, 'int'), ('pairs', -1, 1, 'int')]
    where = next((e.where() for e in ip.events[n0:] if e.kind == 'raise'), '%s (PVTTable.__init__)' % init.module.path)
    pairs = nd.orn(nd.notn(nd.gt0(ANY)), nd.gt0(nd.sub(n, ONE)))
    # all columns but one agree in length: every single defect is looked at
    c.equal('rejection', 'no defect', assume_lens(got, lens, n, ()), assume_lens(want, lens, n, ()), w, where=where, what='acceptance',
            ranges=rg, cond=pairs, points=300)
    for k in lens:
        c.equal('rejection', 'length of ' + k, assume_lens(got, lens, n, (k,)), assume_lens(want, lens, n, (k,)), w, where=where,
                what='acceptance when the length of %s is free' % k, ranges=rg, cond=pairs, points=300)


def assume_lens(x, lens, n, free):
    return nd.subst(x, {v: n for k, v in lens.items() if k not in free})


FULLSLICES = (('sl', None, None), 'all')


# ---------------------------------------------------------------------------- C24
DENS = {'w': ('water', 'Bw'), 'o': ('oil', 'Bo'), 'g': ('gas', 'Bg')}


def density(F, ph, p):
    ref = {k: CFG('rho_' + v[0]) for k, v in DENS.items()}
    if not F.w.pvt_on:
        return nd.mul(ref[ph], nd.add(ONE, nd.mul(CFG('c_' + DENS[ph][0]), num(Fr(1, 10 ** 6)), nd.sub(p, num(10 ** 5)))))
    b = F.col(DENS[ph][1], p)
    extra = {'w': ZERO, 'o': nd.mul(F.col('Rs_m3m3', p), ref['g']), 'g': nd.mul(F.col('Rv_m3m3', p), ref['o'])}[ph]
    return nd.div(nd.add(ref[ph], extra), b)


def C24(c):
    c.rule('density law', 'the density function of each phase follows the stated law')
    c.rule('current density', 'the current-state density is the same law at the current pressure')
    c.rule('current viscosity', 'the current-state viscosity is the configured one, or the tabulated one at the current pressure')
    for pvt in (True, False):
        lab = 'tables' if pvt else 'no tables'
        F = fl(c, 'density law', pvt=pvt)
        if F is None:
            continue
        for ph in DENS:
            guarded(c, 'density law', '%s, %s' % (DENS[ph][0], lab), c24_phase, c, F, ph, lab)


def c24_phase(c, F, ph, lab):
    w = F.w
    name = '%s, %s' % (DENS[ph][0], lab)
    c.equal('density law', name, F.node('calc_%s_density' % DENS[ph][0], P), density(F, ph, P), w, what='density of ' + name)
    Pn = w.nodeof(w.fl, 'pressure')
    c.equal('current density', name, F.attr('rho_' + ph), density(F, ph, Pn), w, what='current density of ' + name)
    want = nd.mul(F.col('mu_%s_cP' % ph, Pn), num(0.001)) if w.pvt_on else nd.mul(CFG('mu_' + DENS[ph][0]), num(0.001))
    c.equal('current viscosity', name, F.attr('mu_' + ph), want, w, what='current viscosity of ' + name)


# ---------------------------------------------------------------------------- C25
def get(k, d):
    return mk('get', RP, string(k), d)


def corey_norm(s):
    return nd.clamp(nd.div(nd.sub(s, SWC), nd.sub(nd.sub(ONE, SWC), SOR)), ZERO, ONE)


def curves(model, sw, sg):
    nw, no, ng = get('nw', num(2)), get('no', num(2)), get('ng', num(2))
    sn = corey_norm(sw)
    mob = nd.sub(nd.sub(ONE, SWC), SOR)
    krw = nd.power(sn, nw)
    krg = nd.power(nd.clamp(nd.div(sg, mob), ZERO, ONE), ng)
    if model == 'stone2':
        gn = nd.clamp(nd.div(nd.sub(sg, SGC), nd.sub(nd.sub(ONE, SGC), SOR)), ZERO, ONE)
        ew, eg = get('ko_end_w', ONE), get('ko_end_g', ONE)
        krow = nd.mul(ew, nd.power(nd.sub(ONE, sn), get('now', no)))
        krog = nd.mul(eg, nd.power(nd.sub(ONE, gn), get('nog', ng)))
        kro = nd.maxn(nd.sub(nd.add(krow, krog), nd.minn(ew, eg)), ZERO)
    else:
        kro = nd.power(nd.sub(ONE, sn), no)
    return {'o': kro, 'w': krw, 'g': krg}


FULL = [('s_w', 0, 1, 'lin'), ('s_g', 0, 1, 'lin'), ('sw_cr', 0.05, 0.25, 'lin'), ('so_r', 0.05, 0.3, 'lin'), ('sg_cr', 0.0, 0.1, 'lin'),
        ('ko_end', 0.4, 1, 'lin')]
MODELS = ('corey', 'stone2')
PH = {'o': 'oil', 'w': 'water', 'g': 'gas'}


def models(c, rule):
    for model in MODELS:
        F = fl(c, rule, pvt=False, fluid={'rp': {'model': string(model)}})
        if F is not None:
            yield model, F


def C25(c):
    c.rule('curves', 'the curve of each phase is the stated one')
    c.rule('together', 'the function returning all three curves returns these, in the order oil, water, gas; without a gas saturation that of the current state is used')
    c.rule('default model', 'without a configured model the two-phase curves are used')
    c.rule('bounds', 'every curve is between zero and one for saturations between zero and one')
    for model, F in models(c, 'curves'):
        guarded(c, 'curves', model, c25_model, c, F, model)
    F = fl(c, 'default model', pvt=False)
    if F is not None:
        guarded(c, 'default model', 'oil', c25_default, c, F)


def c25_model(c, F, model):
    w = F.w
    cur = w.nodeof(w.fl, 's_g')
    k = curves(model, SW, SG)
    k0 = curves(model, SW, cur)
    pts = dict(ranges=FULL, points=max(c.points, 150))
    c.equal('curves', 'water, ' + model, F.node('calc_water_kr', SW), k['w'], w, what='relative permeability of water', **pts)
    c.equal('curves', 'gas, ' + model, F.node('calc_gas_kr', SG), k['g'], w, what='relative permeability of gas', **pts)
    c.equal('curves', 'oil, ' + model, F.node('calc_oil_kr', SW, SG), k['o'], w, what='relative permeability of oil', **pts)
    c.equal('curves', 'oil without gas saturation, ' + model, F.node('calc_oil_kr', SW), k0['o'], w, what='relative permeability of oil', **pts)
    for lab, got, want in (('with gas saturation', F.nodes('get_rel_perms', 3, SW, SG), k), ('without gas saturation', F.nodes('get_rel_perms', 3, SW), k0)):
        for ph, x in zip('owg', got):
            c.equal('together', '%s %s, %s' % (PH[ph], lab, model), x, want[ph], w, what='returned curve of ' + PH[ph], **pts)
            if lab[4] == ' ':
                c.holds('bounds', '%s, %s' % (PH[ph], model), nd.andn(nd.ge(x, ZERO), nd.ge(ONE, x)), w, what='zero <= curve <= one', **pts)


def c25_default(c, F):
    mod = [x for x in nd.walk(F.node('calc_oil_kr', SW, SG)) if x.op == 'get' and string('model') in x.args]
    if not mod:
        raise AnalysisError('the oil curve does not depend on a configured model')
    got = nd.subst(F.node('calc_oil_kr', SW, SG), {mod[0]: mod[0].args[2] if len(mod[0].args) > 2 else NONE})
    c.equal('default model', 'oil', got, curves('corey', SW, SG)['o'], F.w, ranges=FULL, what='oil curve without a configured model')


# ---------------------------------------------------------------------------- C26
def diff(n, x, memo=None):
    """derivative of a value-graph node with respect to leaf x (away from kinks)"""
    memo = {} if memo is None else memo
    if n in memo:
        return memo[n]
    if n is x:
        r = ONE
    elif not any(y is x for y in nd.walk(n)):
        r = ZERO
    elif n.op == 'poly':
        out = []
        for m, cf in n.args:
            for i, (at, e) in enumerate(m):
                d = diff(at, x, memo)
                if d is ZERO:
                    continue
                rest = [nd.num(cf * e)] + [nd.power(b, nd.num(k)) for j, (b, k) in enumerate(m) if j != i]
                if e != 1:
                    rest.append(nd.power(at, nd.num(e - 1)))
                out.append(nd.mul(d, *rest))
        r = nd.add(*out) if out else ZERO
    elif n.op == 'pow':
        b, e = n.args
        if any(y is x for y in nd.walk(e)):
            raise AnalysisError('exponent depends on the saturation')
        r = nd.mul(e, nd.power(b, nd.sub(e, ONE)), diff(b, x, memo))
    elif n.op in ('min', 'max'):
        a = list(n.args)
        r, best = diff(a[0], x, memo), a[0]
        for b in a[1:]:
            cnd = nd.gt0(nd.sub(b, best) if n.op == 'max' else nd.sub(best, b))
            r = nd.ite(cnd, diff(b, x, memo), r)
            best = nd.maxn(best, b) if n.op == 'max' else nd.minn(best, b)
    elif n.op == 'ite':
        r = nd.ite(n.args[0], diff(n.args[1], x, memo), diff(n.args[2], x, memo))
    elif n.op == 'abs':
        r = nd.mul(nd.ite(nd.gt0(n.args[0]), ONE, num(-1)), diff(n.args[0], x, memo))
    elif n.op == 'fn' and n.args[0] == 'log':
        r = nd.div(diff(n.args[1], x, memo), n.args[1])
    elif n.op == 'fn' and n.args[0] == 'exp':
        r = nd.mul(n, diff(n.args[1], x, memo))
    else:
        raise AnalysisError('cannot differentiate ' + nd.show(n, 3))
    memo[n] = r
    return r


# derivative function, position in its result, curve, saturation
DERIV = [
    ('calc_dkrw_dsw', None, 'calc_water_kr', SW), ('calc_dkro_dsw', None, 'calc_oil_kr', SW), ('calc_dkrg_dsg', None, 'calc_gas_kr', SG),
    ('get_rel_perms_derivatives', 0, 'calc_oil_kr', SW), ('get_rel_perms_derivatives', 1, 'calc_water_kr', SW),
    ('get_capillary_pressure_derivative', None, 'get_capillary_pressure', SW),
    ('calc_dpc_dsw', None, 'calc_capillary_pressure', SW),
    ('get_capillary_pressure_og_derivative', None, 'get_capillary_pressure_og', SG),
]


def C26(c):
    c.rule('derivative', 'the derivative function equals the derivative of the curve inside the mobile range')
    c.rule('constant part', 'the derivative function is zero where the curve is held constant')
    for model, F in models(c, 'derivative'):
        for d in DERIV:
            if model == 'stone2' and 'oil' not in d[2]:
                continue
            lab = '%s, %s' % (d[0] + ('' if d[1] is None else ', %s' % ('oil', 'water')[d[1]]), model)
            guarded(c, 'derivative', lab, c26_one, c, F, d, lab)


def c26_one(c, F, d, lab):
    fn, pos, curve, x = d
    w = F.w
    got = F.node(fn, x) if pos is None else F.nodes(fn, 2, x)[pos]
    cv = F.node(curve, x)
    want = diff(cv, x)
    top = nd.sub(nd.sub(ONE, SWC), SOR)
    lo, hi = (SWC, nd.sub(ONE, SOR)) if x is SW else (ZERO, top)
    inside = nd.andn(nd.gt0(nd.sub(x, lo)), nd.gt0(nd.sub(hi, x)))
    f = F.method(fn)
    kw = dict(where='%s:%d (%s)' % (short(f.module.path), f.node.lineno, f.qual)) if isinstance(f, FuncV) else {}
    outside = nd.orn(nd.gt0(nd.sub(lo, x)), nd.gt0(nd.sub(x, hi)))
    if x is SG:
        outside = nd.gt0(nd.sub(x, hi))
    kw.update(ranges=FULL, points=max(c.points, 150))
    c.equal('derivative', lab, got, want, w, cond=inside, what=fn + ' against the derivative of ' + curve, **kw)
    c.equal('constant part', lab, got, ZERO, w, cond=nd.andn(outside, nd.eqn(want, ZERO)), what=fn + ' where %s is constant' % curve, **kw)


# ---------------------------------------------------------------------------- C35
def slope(F, name):
    """minus the relative slope of a formation volume factor, 1/Pa, centred difference over 0.1 MPa"""
    h = num(10 ** 5)
    d = nd.sub(F.col(name, nd.add(P, h)), F.col(name, nd.sub(P, h)))
    return nd.neg(nd.div(nd.div(d, nd.mul(num(2), h)), F.col(name, P)))


def C35(c):
    c.rule('with tables', 'rock compressibility plus each saturation times minus the relative slope of its own formation volume factor')
    c.rule('without tables', 'the constant computed at construction, whatever the arguments')
    c.rule('in the equations', 'the pressure equation uses this compressibility at the start of the step')
    F = fl(c, 'with tables', pvt=True)
    if F is not None:
        guarded(c, 'with tables', 'all phases', c35_tables, c, F)
    F = fl(c, 'without tables', pvt=False)
    if F is not None:
        guarded(c, 'without tables', 'constant', c35_const, c, F)
    s = guarded(c, 'in the equations', 'tables', Step, c, pvt=True, wells=[], sources=SRC)
    if s is not None:
        guarded(c, 'in the equations', 'tables', c35_eq, c, s)


def c35_tables(c, F):
    w = F.w
    got = F.node('calc_total_compressibility', P, SW, SG)
    so = nd.sub(nd.sub(ONE, SW), SG)
    rock = nd.mul(CFG('c_rock'), num(Fr(1, 10 ** 6)))
    at = lambda a, b: nd.subst(got, {SW: num(a), SG: num(b)})
    for ph, a, b, nm in (('water', 1, 0, 'Bw'), ('gas', 0, 1, 'Bg'), ('oil', 0, 0, 'Bo')):
        c.equal('with tables', ph, at(a, b), nd.add(rock, slope(F, nm)), w, what='compressibility at pure ' + ph)
    c.equal('with tables', 'all phases', got, nd.add(rock, nd.mul(SW, slope(F, 'Bw')), nd.mul(so, slope(F, 'Bo')), nd.mul(SG, slope(F, 'Bg'))), w,
            what='total compressibility')


def c35_const(c, F):
    w = F.w
    got = F.node('calc_total_compressibility', P, SW, SG)
    bad = [x for x in nd.walk(got) if x in (P, SW, SG) or x in w.frozen.values()]
    c.ok('without tables', 'constant', not bad, 'the constant depends on ' + ', '.join(nd.show(x) for x in bad), where=locate(w, got))


def c35_eq(c, s):
    w = s.w
    S = System(s)
    v, st, _ = w.call(w.fl, 'calc_total_compressibility', [w.ip.tensor(w.st, w.nodeof(w.fl, a), 'grid') for a in ('pressure', 's_w', 's_g')])
    ct = w.ip.node(st, v)
    c.equal('in the equations', 'tables', S.drest, nd.div(nd.mul(w.nodeof(w.res, 'porous_volume'), ct), DT), w, where=S.where, what='accumulation coefficient')


RULES = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}

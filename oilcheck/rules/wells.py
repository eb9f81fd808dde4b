"""Wells and balances of the sequential scheme: C08 C09 C10 C11 C12 C13 C31 C36 C37 C38."""
from fractions import Fraction as Fr
from .. import nodes as nd
from ..nodes import num, sym, string, mk, ZERO, ONE, TRUE
from ..impes import Step, Sat, System, Ref3, WellRef, LOW, UPP
from ..world import DT, DX, DY, DZ, NX, NY, NZ, grid, scalar, World
from ..spec import SPEC
from ..lib import guarded
from ..ri import equiv
from .flow import SRC, keyname

W = lambda **k: dict(dict(type='producer', control_type='rate'), **k)
RES = {
    'reservoir-rate producer': W(),
    'reservoir-rate water injector': W(type='injector'),
    'reservoir-rate gas injector': W(type='injector', injected_phase='gas'),
}
SURF = {
    'oil-rate producer': W(rate_type='surface', surface_phase='oil'),
    'water-rate producer': W(rate_type='surface', surface_phase='water'),
    'gas-rate producer': W(rate_type='surface', surface_phase='gas'),
    'liquid-rate producer': W(rate_type='surface', surface_phase='liquid'),
    'surface-rate producer without a named phase': W(rate_type='surface'),
    'surface-rate water injector': W(type='injector', rate_type='surface'),
    'surface-rate gas injector': W(type='injector', rate_type='surface', injected_phase='gas'),
}
BHP = {
    'pressure-controlled producer': W(control_type='bhp'),
    'pressure-controlled water injector': W(type='injector', control_type='bhp'),
    'pressure-controlled gas injector': W(type='injector', control_type='bhp', injected_phase='gas'),
}
MIN = {
    'rate producer with minimum pressure': W(bhp_min=True),
}
MINS = {
    'oil-rate producer with minimum pressure': W(bhp_min=True, rate_type='surface', surface_phase='oil'),
}
LIM = {'producer limited by %s' % k: W(limits=[k]) for k in ('wopr', 'wlpr', 'wgpr', 'liqr')}
LIM['producer with all limits'] = W(limits=['wopr', 'wlpr', 'wgpr', 'liqr'])
LIM['oil-rate producer with all limits'] = W(limits=['wopr', 'wlpr', 'wgpr', 'liqr'], rate_type='surface', surface_phase='oil')
LIM['gas-rate producer limited by liqr and wgpr'] = W(limits=['liqr', 'wgpr'], rate_type='surface', surface_phase='gas')

SHORT = [('dt', 1e-6, 1e-3, 'log')]            # far too short for a well to empty or fill its cell
LONG = [('dt', 1e5, 3e7, 'log')]
IMMOBILE_GAS = [('s_g', 0, 0, 'lin'), ('.sg_cr', 0, 0, 'lin')]
IMMOBILE_WATER = [('s_w', 0.2, 0.2, 'lin'), ('.sw_cr', 0.2, 0.2, 'lin')]
STATES = [('both phases mobile', []), ('no gas in the cell', IMMOBILE_GAS), ('water at its connate saturation', IMMOBILE_WATER)]


def well_worlds(c, modes, rule, kinds=(True, False)):
    for name, m in modes.items():
        for pvt in kinds:
            lab = '%s, %s' % (name, 'tables' if pvt else 'no tables')
            s = guarded(c, rule, lab, Step, c, pvt=pvt, wells=[m], sources=SRC)
            if s is not None:
                yield lab, m, s


def ref(s, m, n=0, P=None):
    return WellRef(s, Ref3(s, P), n, m)


def sat_well(s, a, key):
    S = Sat(s, a)
    return S.parts.get(key, ZERO), S


# ---------------------------------------------------------------------------- C09
def C09(c):
    c.rule('own cell', 'a well contributes to the balance of its own cell and to no other')
    c.rule('right phase', 'an injector adds its own phase only')
    c.rule('shares', 'a producer removes water and gas in proportion to their shares of the total mobility in its cell')
    c.rule('configured rate', 'while nothing chokes it a reservoir-rate well moves exactly its configured rate')
    c.rule('bound and direction', 'a reservoir-rate well moves between nothing and its configured rate, injectors in and producers out')
    for lab, m, s in well_worlds(c, {**RES, **SURF, **BHP, **MIN}, 'own cell'):
        guarded(c, 'shares', lab, c09, c, lab, m, s)


def c09(c, lab, m, s):
    r = ref(s, m)
    qw, S = sat_well(s, 's_w', r.key)
    qg, T = sat_well(s, 's_g', r.key)
    for X, ph in ((S, 'water'), (T, 'gas')):
        for k, v in X.parts.items():
            if k not in LOW and k not in UPP and k != r.key:
                c.equal('own cell', '%s balance of %s (%s)' % (ph, keyname(k), lab), v, ZERO, s.w)
        c.equal('own cell', '%s balance of cells without well (%s)' % (ph, lab), X.rest, ZERO, s.w)
    if m['type'] == 'injector':
        if m.get('injected_phase') == 'gas':
            c.equal('right phase', 'water added by %s' % lab, qw, ZERO, s.w)
        else:
            c.equal('right phase', 'gas added by %s' % lab, qg, ZERO, s.w)
        q = qg if m.get('injected_phase') == 'gas' else qw
    else:
        c.equal('shares', 'gas to water (%s)' % lab, nd.mul(qg, r.m['w']), nd.mul(qw, r.m['g']), s.w)
        q = nd.div(qw, r.f['w'])
    if m['control_type'] != 'rate' or m.get('rate_type') == 'surface' or m.get('bhp_min'):
        if m['type'] == 'producer' and m['control_type'] == 'rate' and not m.get('bhp_min'):
            c.holds('bound and direction', 'withdrawal (%s)' % lab, nd.ge(nd.neg(q), ZERO), s.w)
        if m['type'] == 'injector' and m['control_type'] == 'rate':
            c.holds('bound and direction', 'injection (%s)' % lab, nd.ge(q, ZERO), s.w)
        return
    want = r.phases(r.rate_res())
    for st, rg in STATES:
        if st != 'both phases mobile' and m['type'] == 'injector':
            continue
        c.equal('configured rate', 'water of %s, %s' % (lab, st), qw, want['w'], s.w, ranges=rg + SHORT)
        c.equal('configured rate', 'gas of %s, %s' % (lab, st), qg, want['g'], s.w, ranges=rg + SHORT)
    inward = q if r.inj else nd.neg(q)
    for nm, rg in (('short step', []), ('long step', LONG)):
        c.holds('bound and direction', 'not backwards: %s, %s' % (lab, nm), nd.ge(inward, ZERO), s.w, ranges=rg)
        c.holds('bound and direction', 'at most the configured rate: %s, %s' % (lab, nm), nd.ge(nd.mul(r.rate(), num(1.000001)), inward), s.w, ranges=rg)


# ---------------------------------------------------------------------------- C10
def C10(c):
    c.rule('surface conversion', 'the reservoir rate is the surface rate through the formation volume factors, solution gas and vaporised oil at the well cell')
    for lab, m, s in well_worlds(c, SURF, 'surface conversion', (True,)):
        guarded(c, 'surface conversion', lab, c10, c, lab, m, s)


def c10(c, lab, m, s):
    r = ref(s, m)
    want = r.phases(r.rate_res())
    for a, ph, nm in (('s_w', 'w', 'water'), ('s_g', 'g', 'gas')):
        got, S = sat_well(s, a, r.key)
        for st, rg in STATES:
            if st != 'both phases mobile' and (m['type'] == 'injector' or m.get('surface_phase') in ('water',)):
                continue
            c.equal('surface conversion', '%s of %s, %s' % (nm, lab, st), got, want[ph], s.w, ranges=rg + SHORT)


# ---------------------------------------------------------------------------- C11
def C11(c):
    c.rule('choke', 'the rate is reduced by the largest factor in [0, 1] which keeps water and gas of the cell in the mobile range')
    c.rule('surface limits', 'after choking the rate is cut to the smallest rate allowed by the oil, water, gas and liquid limits')
    inj = {k: v for d in (RES, SURF) for k, v in d.items() if v['type'] == 'injector'}
    prod = {k: v for d in (RES, SURF) for k, v in d.items() if v['type'] == 'producer'}
    for lab, m, s in well_worlds(c, inj, 'choke'):
        guarded(c, 'choke', lab, c11, c, lab, m, s, 'choke')
    for lab, m, s in well_worlds(c, prod, 'choke', (True,)):
        guarded(c, 'choke', lab, c11, c, lab, m, s, 'choke')
    for lab, m, s in well_worlds(c, LIM, 'surface limits', (True,)):
        guarded(c, 'surface limits', lab, c11, c, lab, m, s, 'surface limits')


def c11(c, lab, m, s, rule):
    r = ref(s, m)
    want = r.phases(r.q_rate())
    for a, ph, nm in (('s_w', 'w', 'water'), ('s_g', 'g', 'gas')):
        got, S = sat_well(s, a, r.key)
        for rn, rg in (('short step', [('dt', 10, 1e4, 'log')]), ('long step', LONG)):
            for st, sr in STATES:
                if m['type'] == 'injector' and st != 'both phases mobile':
                    continue
                if st != 'both phases mobile' and (m.get('surface_phase') == 'water' or rn == 'long step' or
                                                   ('wlpr' in (m.get('limits') or []) and st.startswith('water'))):
                    continue
                c.equal(rule, '%s of %s, %s, %s' % (nm, lab, rn, st), got, want[ph], s.w, ranges=rg + sr)


# ---------------------------------------------------------------------------- C31
def C31(c):
    c.rule('pressure equation', 'diagonal: well index x total mobility; right-hand side: that factor x bottom-hole pressure, in the cell of the well')
    c.rule('saturation update', 'the well moves well index x total mobility x (new cell pressure - bottom-hole pressure)')
    c.rule('minimum pressure', 'a rate producer whose required bottom-hole pressure is below its minimum acts as pressure-controlled at the minimum in both equations')
    for lab, m, s in well_worlds(c, BHP, 'pressure equation'):
        guarded(c, 'pressure equation', lab, c31, c, lab, m, s, False)
    for lab, m, s in well_worlds(c, MIN, 'minimum pressure'):
        guarded(c, 'minimum pressure', lab, c31, c, lab, m, s, True)


def c31(c, lab, m, s, minimum):
    P0 = s.w.nodeof(s.w.fl, 'pressure')
    r0 = ref(s, m, 0, P0)
    r = ref(s, m)
    S = System(s)
    fac = nd.mul(r0.wi, r0.mt)
    pb = nd.mul(r0.e['bhp_min' if minimum else 'control_value'], num(10 ** 6))
    on = r0.on_min() if minimum else TRUE
    rate = r0.rate() if r0.inj else nd.neg(r0.rate())
    rule = 'minimum pressure' if minimum else 'pressure equation'
    pr = [('w0.value', 5, 15, 'lin')] if not minimum else []
    c.equal(rule, 'diagonal (%s)' % lab, S.dparts.get(r0.key, ZERO), nd.ite(on, fac, ZERO), s.w, ranges=pr)
    if minimum:
        # surface-rate and choking differences between the equations are the subject of C37
        c.equal(rule, 'right-hand side (%s)' % lab, S.rparts.get(r0.key, ZERO), nd.ite(on, nd.mul(fac, pb), rate), s.w)
    else:
        c.equal(rule, 'right-hand side (%s)' % lab, S.rparts.get(r0.key, ZERO), nd.mul(fac, pb), s.w, ranges=pr)
    q = r.q_bhp(r.e['bhp_min' if minimum else 'control_value'])
    want = r.phases(q)
    for a, ph, nm in (('s_w', 'w', 'water'), ('s_g', 'g', 'gas')):
        got, T = sat_well(s, a, r.key)
        c.equal('minimum pressure' if minimum else 'saturation update', '%s moved (%s)' % (nm, lab), got, want[ph], s.w, ranges=pr,
                **({'cond': on} if minimum else {}))
        if minimum:
            c.equal('minimum pressure', '%s moved at rate control (%s)' % (nm, lab), got, r.phases(r.rate_res())[ph], s.w, ranges=SHORT,
                    cond=nd.notn(on))
    for k in list(S.dparts):
        if k not in LOW and k not in UPP and k != r0.key:
            c.equal(rule, 'diagonal of %s (%s)' % (keyname(k), lab), S.dparts[k], ZERO, s.w)


# ---------------------------------------------------------------------------- balances
def entry(s, attr, phase, side, st=None):
    """(after, before) of a balance entry"""
    w = s.w
    st = st or s.done()
    d = w.attr(w.sim, attr, st)
    v = w.ip.node(st, w.ip.getitem(w.ip.getitem(d, string(phase), st, None), string(side), st, None))
    d0 = w.attr(w.sim, attr, w.st)
    v0 = w.ip.node(w.st, w.ip.getitem(w.ip.getitem(d0, string(phase), w.st, None), string(side), w.st, None))
    return v, v0


def C12(c):
    c.rule('component totals', 'component totals grow by the surface equivalent of what the saturation update moves, each well once')
    c.rule('accumulation', 'accumulation = in - out')
    allm = {**RES, **SURF, **BHP, **MIN, 'producer with all limits': LIM['producer with all limits'],
            'oil-rate producer with all limits': LIM['oil-rate producer with all limits']}
    for lab, m, s in well_worlds(c, allm, 'component totals', (True,)):
        guarded(c, 'component totals', lab, c12, c, lab, [m], s)
    pairs = [('reservoir-rate producer', 'pressure-controlled producer'), ('reservoir-rate gas injector', 'oil-rate producer'),
             ('pressure-controlled gas injector', 'reservoir-rate gas injector'), ('oil-rate producer', 'gas-rate producer')]
    for a, b in pairs:
        ms = [allm[a], allm[b]]
        lab = '%s and %s' % (a, b)
        s = guarded(c, 'component totals', lab, Step, c, pvt=True, wells=ms, sources=SRC)
        if s is not None:
            guarded(c, 'component totals', lab, c12, c, lab, ms, s)


def c12(c, lab, ms, s):
    R = Ref3(s)
    S, T = Sat(s, 's_w'), Sat(s, 's_g')
    tot = [ZERO] * 4
    for n, m in enumerate(ms):
        r = WellRef(s, R, n, m)
        if m['type'] == 'injector':
            q = (T if m.get('injected_phase') == 'gas' else S).parts.get(r.key, ZERO)
        else:
            q = nd.div(S.parts.get(r.key, ZERO), r.f['w'])
        tot = [nd.add(x, y) for x, y in zip(tot, r.components(q))]
    pr = [('w%d.value' % n, 5, 15, 'lin') for n, m in enumerate(ms) if m['control_type'] == 'bhp']
    names = [('oil', 'in'), ('oil', 'out'), ('gas', 'in'), ('gas', 'out')]
    for (ph, side), want in zip(names, tot):
        v, v0 = entry(s, 'component_balance', ph, side)
        d = s.abstract_p(nd.sub(v, v0))
        if v0.op == 'sym' and any(x is v0 for x in nd.walk(d)):
            c.add('component totals', '%s %s of %s' % (ph, side, lab), 'violated',
                  'the new total is not the old one plus a contribution: ' + nd.show(v, 4))
            continue
        for rn, rg in (('', []), (', long step', LONG)):
            c.equal('component totals', '%s %s of %s%s' % (ph, side, lab, rn), d, want, s.w, ranges=pr + rg)
    for ph in ('oil', 'gas'):
        acc, _ = entry(s, 'component_balance', ph, 'accum')
        i, _ = entry(s, 'component_balance', ph, 'in')
        o, _ = entry(s, 'component_balance', ph, 'out')
        c.equal('accumulation', '%s (%s)' % (ph, lab), acc, nd.sub(i, o), s.w)


def C13(c):
    c.rule('change in place', 'in - out = sum over cells of saturation change x pore volume x density of that phase')
    c.rule('monotone', 'in and out never decrease')
    for lab, m, s in well_worlds(c, {'reservoir-rate producer': RES['reservoir-rate producer']}, 'change in place'):
        guarded(c, 'change in place', lab, c13, c, lab, s)


def c13(c, lab, s):
    w = s.w
    st = s.done()
    pv = nd.mul(grid('cfg.porosity'), DX, DY, DZ)
    ds = {}
    for a, ph in (('s_w', 'water'), ('s_g', 'gas')):
        new, old = s.field(a), w.nodeof(w.fl, a)
        # the change is opaque here: a signed symbol of the same grid
        D = grid('d_' + a)
        ds[ph] = (new, old, D)

    def abstract(n):
        n = s.abstract_p(n)
        m = {}
        for ph, (new, old, D) in ds.items():
            m[s.abstract_p(new)] = nd.add(old, D)
        return nd.subst(n, m)
    chg = {'water': ds['water'][2], 'gas': ds['gas'][2]}
    chg['oil'] = nd.neg(nd.add(chg['water'], chg['gas']))
    rg = [('d_s_', -0.02, 0.02, 'lin')]
    for ph, key in (('water', 'w'), ('gas', 'g'), ('oil', 'o')):
        i, i0 = entry(s, 'mass_balance', ph, 'in')
        o, o0 = entry(s, 'mass_balance', ph, 'out')
        di, do = abstract(nd.sub(i, i0)), abstract(nd.sub(o, o0))
        rho = abstract(w.nodeof(w.fl, 'rho_' + key, st))
        want = mk('red', 'sum', nd.mul(chg[ph], pv, rho))
        c.equal('change in place', '%s (%s)' % (ph, lab), nd.sub(di, do), want, w, ranges=rg)
        for nm, d in (('in', di), ('out', do)):
            c.holds('monotone', '%s %s (%s)' % (ph, nm, lab), nd.ge(d, ZERO), w, ranges=rg)


# ---------------------------------------------------------------------------- C36
def C36(c):
    c.rule('independent contributions', 'with two wells every equation and balance holds the sum of what each well contributes alone')
    modes = {**RES, **SURF, **BHP, **MIN}
    pairs = [('reservoir-rate producer', 'reservoir-rate water injector', True), ('reservoir-rate producer', 'pressure-controlled producer', False),
             ('pressure-controlled water injector', 'pressure-controlled producer', True),
             ('oil-rate producer', 'surface-rate gas injector', True), ('rate producer with minimum pressure', 'reservoir-rate producer', False),
             ('gas-rate producer', 'oil-rate producer', True), ('pressure-controlled producer', 'rate producer with minimum pressure', True)]
    if c.tier == 'thorough':
        names = list(modes)
        pairs = [(a, b, True) for a in names for b in names] + [(a, b, False) for a in names for b in names if 'surface' not in a + b]
        same = pairs
    else:
        same = [('pressure-controlled water injector', 'pressure-controlled producer', True), ('oil-rate producer', 'surface-rate gas injector', True),
                ('pressure-controlled producer', 'rate producer with minimum pressure', False), ('reservoir-rate water injector', 'reservoir-rate producer', False),
                ('reservoir-rate gas injector', 'pressure-controlled gas injector', True)]
    for a, b, pvt in pairs:
        lab = '%s then %s, %s' % (a, b, 'tables' if pvt else 'no tables')
        ms = [modes[a], modes[b]]
        s = guarded(c, 'independent contributions', lab, Step, c, pvt=pvt, wells=ms, sources=SRC)
        if s is not None:
            guarded(c, 'independent contributions', lab, c36, c, lab, ms, pvt, s)
    for a, b, pvt in same:
        lab = '%s and %s in one cell, %s' % (a, b, 'tables' if pvt else 'no tables')
        ms = [modes[a], modes[b]]
        s = guarded(c, 'independent contributions', lab, Step, c, pvt=pvt, wells=[ms[0], dict(ms[1], at=0)], sources=SRC)
        if s is not None:
            guarded(c, 'independent contributions', lab, c36, c, lab, ms, pvt, s, True)


def alone(c, n, m, pvt):
    """the world with only well n of the pair, under the same symbols"""
    s = Step(None, pvt=pvt, wells=[m], sources=SRC)
    return s


def c36(c, lab, ms, pvt, s, same=False):
    S, T, Y = Sat(s, 's_w'), Sat(s, 's_g'), System(s)
    rg = []
    for n, m in enumerate(ms):
        if m['control_type'] == 'bhp':
            rg.append(('w%d.value' % n, 5, 15, 'lin'))
    e = s.w.wsym
    keys = [(x['i'], x['j'], x['k']) for x in e]
    acc = [ZERO] * 4
    both = {}
    for n, m in enumerate(ms):
        s1 = alone(c, n, m, pvt)
        ren = {}
        for k, v in s1.w.wsym[0].items():
            ren[v] = e[n][k]
        for x in ('last_mode', 'last_q_total', 'well_index', 'cell_index_flat'):
            ren[sym('well0.' + x)] = sym('well%d.%s' % (n, x))
        key1 = tuple(s1.w.wsym[0][k] for k in 'ijk')
        S1, T1, Y1 = Sat(s1, 's_w'), Sat(s1, 's_g'), System(s1)
        f = lambda x: nd.subst(x, ren)
        for nm, X, X1 in (('water balance', S.parts, S1.parts), ('gas balance', T.parts, T1.parts),
                          ('diagonal', Y.dparts, Y1.dparts), ('right-hand side', Y.rparts, Y1.rparts)):
            if same:
                both[nm] = nd.add(both.get(nm, ZERO), f(X1.get(key1, ZERO)))
                if n:
                    c.equal('independent contributions', '%s of the cell (%s)' % (nm, lab), X.get(keys[0], ZERO), both[nm], s.w, ranges=rg)
                continue
            c.equal('independent contributions', '%s of the %s well (%s)' % (nm, ('first', 'second')[n], lab),
                    X.get(keys[n], ZERO), f(X1.get(key1, ZERO)), s.w, ranges=rg)
        for nm, X, X1 in (('diagonal', Y.drest, Y1.drest), ('right-hand side', Y.rrest, Y1.rrest)):
            c.equal('independent contributions', '%s of the other cells beside the %s well (%s)' % (nm, ('first', 'second')[n], lab), X, f(X1), s.w, ranges=rg)
        for i, (ph, side) in enumerate([('oil', 'in'), ('oil', 'out'), ('gas', 'in'), ('gas', 'out')]):
            v, v0 = entry(s1, 'component_balance', ph, side)
            acc[i] = nd.add(acc[i], f(s1.abstract_p(nd.sub(v, v0))))
    for i, (ph, side) in enumerate([('oil', 'in'), ('oil', 'out'), ('gas', 'in'), ('gas', 'out')]):
        v, v0 = entry(s, 'component_balance', ph, side)
        c.equal('independent contributions', '%s %s balance (%s)' % (ph, side, lab), s.abstract_p(nd.sub(v, v0)), acc[i], s.w, ranges=rg)
    for nm, X in (('water balance', S.parts), ('gas balance', T.parts), ('diagonal', Y.dparts), ('right-hand side', Y.rparts)):
        for k in X:
            if k not in LOW and k not in UPP and k not in keys:
                c.equal('independent contributions', '%s of %s (%s)' % (nm, keyname(k), lab), X[k], ZERO, s.w, ranges=rg)


# ---------------------------------------------------------------------------- C37
def C37(c):
    c.rule('same volume', 'the rate in the pressure equation is the reservoir rate the saturation update applies')
    c.rule('same volume, choked', 'the same while the well is choked')
    c.rule('same volume, surface rate', 'the same for surface-rate wells')
    for lab, m, s in well_worlds(c, {**RES, **SURF}, 'same volume'):
        if m.get('rate_type') == 'surface' and 'no tables' in lab:
            pass
        guarded(c, 'same volume', lab, c37, c, lab, m, s)


def c37(c, lab, m, s):
    r = ref(s, m)
    Y = System(s)
    qp = Y.rparts.get(r.key, ZERO)
    qw, S = sat_well(s, 's_w', r.key)
    qg, T = sat_well(s, 's_g', r.key)
    if r.inj:
        q = qg if m.get('injected_phase') == 'gas' else qw
    else:
        q = nd.div(qw, r.f['w'])
    surf = m.get('rate_type') == 'surface' and s.w.pvt_on
    c.equal('same volume, surface rate' if surf else 'same volume', lab, qp, q, s.w, ranges=SHORT)
    if not surf:
        c.equal('same volume, choked', lab, qp, q, s.w, ranges=LONG)


# ---------------------------------------------------------------------------- C38
def C38(c):
    c.rule('radius', 'the well index depends on the radius through one logarithm: 2 pi K / log(ro / radius)')
    c.rule('value', 'the well index is Peaceman\'s for permeability and dimensions of the cell, in SI')
    s = guarded(c, 'radius', 'well index', World, pvt=False, wells=[W()], freeze=False)
    if s is None:
        return
    c.absorb(s.ip)
    guarded(c, 'radius', 'well index', c38, c, s)


def c38(c, w):
    import math
    wi = w.nodeof(w.wells()[0], 'well_index')
    rw = w.wsym[0]['radius']
    # d(1/WI)/d log r is constant and negative: compare three radii
    r1, r2 = scalar('w0.ra'), scalar('w0.rb')
    inv = lambda r: nd.inv(nd.subst(wi, {rw: r}))
    rg = [('w0.r', 0.02, 0.15, 'log')]
    lg = lambda r: nd.fn('log', r)
    lhs = nd.mul(nd.sub(inv(r1), inv(rw)), nd.sub(lg(r2), lg(rw)))
    rhs = nd.mul(nd.sub(inv(r2), inv(rw)), nd.sub(lg(r1), lg(rw)))
    c.equal('radius', '1 / well index is linear in log radius', lhs, rhs, w, ranges=rg)
    c.holds('radius', 'a larger radius gives a larger well index', nd.gt0(nd.mul(nd.sub(inv(rw), inv(r1)), nd.sub(r1, rw))), w, ranges=rg)
    i, j, k = [w.wsym[0][x] for x in 'ijk']
    kx = nd.idx(nd.mul(grid('cfg.permeability'), num(9.869233e-16)), (i, j, k))
    ro = nd.mul(num(0.14), nd.power(nd.add(nd.mul(DX, DX), nd.mul(DY, DY)), num(0.5)))
    want = nd.div(nd.mul(num(2 * math.pi), kx, DZ), nd.fn('log', nd.div(ro, rw)))
    # the recorded departure is this value; any other one is reported on its own
    recorded = nd.div(num(Fr(math.pi) * 200), nd.fn('log', nd.div(num(Fr('0.14') * Fr(math.sqrt(2))), rw)))
    name = 'well index' if equiv(wi, recorded, w, ranges=rg) else 'well index, another value'
    c.equal('value', name, wi, want, w)


RULES = {'C09': C09, 'C10': C10, 'C11': C11, 'C12': C12, 'C13': C13, 'C31': C31, 'C36': C36, 'C37': C37, 'C38': C38}

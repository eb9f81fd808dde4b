"""Flow between cells in the sequential scheme: C03 C04 C05 C06 C07 C33."""
from .. import nodes as nd
from ..nodes import num, sym, ZERO, ONE
from ..impes import (Step, Sat, System, Ref3, LOW, UPP, AX)
from ..world import DX, DY, DZ, DT, NZ, grid, scalar
from ..spec import SPEC
from ..lib import guarded, locate
from ..ri import equiv

G = num(9.81)
SRC = {'oilspec': SPEC}
NAME = {'s_w': 'water', 's_g': 'gas'}


def worlds(c, wells=(), both=True, nz1=True):
    """(label, Step) of the worlds a flow rule is decided in"""
    kinds = [('tables', dict(pvt=True)), ('no tables', dict(pvt=False))]
    if nz1:
        kinds.append(('no tables, one layer', dict(pvt=False, nz1=True)))
    for lab, kw in kinds:
        s = guarded(c, 'interpretation', lab, Step, c, wells=list(wells), sources=SRC, **kw)
        if s is not None:
            yield lab, s


def wellkeys(step):
    return {(e['i'], e['j'], e['k']) for e in step.w.wsym}


def keyname(k):
    for ax in range(3):
        if k == LOW[ax]:
            return AX[ax] + ' faces, lower cells'
        if k == UPP[ax]:
            return AX[ax] + ' faces, upper cells'
    return 'cells ' + nd.show(k)


PROD = [dict(type='producer', control_type='rate')]


# ---------------------------------------------------------------------------- C03
def C03(c):
    c.rule('face balance', 'the contribution of a face to the two cells it joins adds up to zero, for every axis and phase')
    c.rule('faces and wells only', 'a cell balance has contributions from its faces and its wells only; nothing enters at an outer boundary')
    c.rule('volume change', 'each substep adds the balance times time step over pore volume over the number of substeps, starting from the old saturation')
    for lab, s in worlds(c, PROD):
        for a in ('s_w', 's_g'):
            guarded(c, 'face balance', '%s, %s' % (NAME[a], lab), c03_phase, c, s, a, lab)


def c03_phase(c, s, a, lab):
    S = Sat(s, a)
    ph = NAME[a]
    for ax in range(3):
        if ax == 2 and 'one layer' in lab:
            continue
        lo, up = S.parts.get(LOW[ax], ZERO), S.parts.get(UPP[ax], ZERO)
        c.equal('face balance', '%s through %s faces (%s)' % (ph, AX[ax], lab), nd.neg(lo), up, s.w,
                what='what leaves the lower cell and what enters the upper cell')
    wk = wellkeys(s)
    for k, v in S.parts.items():
        if k in LOW or k in UPP or k in wk:
            continue
        c.equal('faces and wells only', '%s balance of %s (%s)' % (ph, keyname(k), lab), v, ZERO, s.w)
    c.equal('faces and wells only', '%s balance of every cell (%s)' % (ph, lab), S.rest, ZERO, s.w)
    c.ok('volume change', '%s substeps start at the old saturation (%s)' % (ph, lab), S.init_ok, 'the first substep does not start from the saturation before the step')
    applied(c, s, S, a, lab)


def applied(c, s, S, a, lab):
    """limits aside, one substep adds the increment"""
    sub = {S.inc: scalar('dS')}
    for x in nd.walk(S.body):
        if x.op == 'mu' and x not in sub:
            sub[x] = scalar('cur_s_w' if x is S.base and a == 's_w' else 'cur_s_g' if x is S.base else 'cur_o_%d' % len(sub))
    cur = sub.get(S.base, S.base)
    body = abstract_increments(S, s, sub)
    names = {'cur_s_w': (0.3, 0.42), 'cur_s_g': (0.11, 0.22)}
    rg = [(k, lo, hi, 'lin') for k, (lo, hi) in names.items()] + [('dS', 1e-4, 1e-3, 'lin'), ('cur_o_', 0.11, 0.22, 'lin')]
    c.equal('volume change', '%s after one substep (%s)' % (NAME[a], lab), body, nd.add(cur, scalar('dS')), s.w, ranges=rg)


def abstract_increments(S, s, sub):
    """replace the increments of both phases by small symbols and the substep variables by symbols"""
    other = 's_g' if S.n is s.field('s_w') else 's_w'
    m = dict(sub)
    try:
        O = Sat(s, other)
        m[O.inc] = scalar('dS_other')
    except Exception:
        pass
    # base + increment is one sum in normal form: split it

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = None
        if x.op == 'poly':
            for inc in (S.inc,) + ((O.inc,) if 'O' in loc else ()):
                d = nd.sub(x, inc)
                if x is not inc and len(nd.terms(d)) == 1 and len(nd.terms(x)) == len(nd.terms(inc)) + 1:
                    r = nd.add(go(d), m[inc])
        if r is None:
            r = m.get(x)
        if r is None:
            r = nd.rebuild(x, go)
        memo[x] = r
        return r
    memo = {}
    loc = {'O': 1} if any(k is not S.inc and v.op == 'sym' and v.args[0] == 'dS_other' for k, v in m.items()) else {}
    return go(S.body)


# ---------------------------------------------------------------------------- C06
def C06(c):
    c.rule('darcy flux', 'flux of a phase across a face = transmissibility x own mobility upstream of the own potential x own potential difference')
    for lab, s in worlds(c, PROD):
        R = guarded(c, 'darcy flux', lab, Ref3, s)
        if R is None:
            continue
        for a, ph in (('s_w', 'w'), ('s_g', 'g')):
            guarded(c, 'darcy flux', '%s, %s' % (NAME[a], lab), c06_phase, c, s, R, a, ph, lab)


def potential(s, R, ph, ax, lab):
    pot = nd.sub(nd.idx(R.P, LOW[ax]), nd.idx(R.P, UPP[ax]))
    if ax == 2:
        r = R.rho(ph)
        pot = nd.add(pot, nd.mul(G, DZ, num(0.5), nd.add(nd.idx(r, LOW[ax]), nd.idx(r, UPP[ax]))))
    if ph == 'g':
        w = s.w
        pc, st2, _ = w.call(w.fl, 'get_capillary_pressure_og', [w.ip.tensor(w.st.fork(), w.nodeof(w.fl, 's_g'), 'grid')]) if False else pcog(s)
        pot = nd.sub(pot, nd.sub(nd.idx(pc, UPP[ax]), nd.idx(pc, LOW[ax])))
    return pot


def pcog(s):
    w = s.w
    st = w.st.fork()
    t = w.ip.tensor(st, w.nodeof(w.fl, 's_g'), 'grid')
    v, st, _ = w.call(w.fl, 'get_capillary_pressure_og', [t], st=st)
    return w.ip.node(st, v), st, None


def c06_phase(c, s, R, a, ph, lab):
    S = Sat(s, a)
    m = R.mob(ph)
    for ax in range(3):
        if ax == 2 and 'one layer' in lab:
            continue
        want = R.spec('face_flow', R.trans(ax), nd.idx(m, LOW[ax]), nd.idx(m, UPP[ax]), potential(s, R, ph, ax, lab))
        c.equal('darcy flux', '%s out of the lower cell through %s faces (%s)' % (NAME[a], AX[ax], lab),
                nd.neg(S.parts.get(LOW[ax], ZERO)), want, s.w)
        c.equal('darcy flux', '%s into the upper cell through %s faces (%s)' % (NAME[a], AX[ax], lab),
                S.parts.get(UPP[ax], ZERO), want, s.w)


# ---------------------------------------------------------------------------- C04
def couplings(S):
    out = {}
    for r, k, v in S.off:
        out[(r, k)] = nd.add(out.get((r, k), ZERO), v)
    return out


def C04(c):
    c.rule('symmetric', 'the entry (cell, neighbour) equals the entry (neighbour, cell) for the same face')
    c.rule('seven points', 'off-diagonal entries exist for the two orders of each face of each axis and for no other pair of cells')
    c.rule('row sum', 'the diagonal holds minus each coupling of the row, the accumulation and well productivities only')
    c.rule('coupling', 'a coupling is minus transmissibility times total mobility of the cell with the higher pressure')
    for lab, s in worlds(c, PROD):
        guarded(c, 'symmetric', lab, c04, c, s, lab)
    s = guarded(c, 'row sum', 'pressure-controlled well', Step, c, pvt=False, wells=[dict(type='producer', control_type='bhp')], sources=SRC)
    if s is not None:
        guarded(c, 'row sum', 'pressure-controlled well', c04, c, s, 'pressure-controlled well', True)


def c04(c, s, lab, bhp=False):
    S = System(s)
    P0 = s.w.nodeof(s.w.fl, 'pressure')
    R = Ref3(s, P0)
    co = couplings(S)
    want_pairs = {}
    mt = R.mobt()
    for ax in range(3):
        if ax == 2 and 'one layer' in lab:
            want_pairs[(LOW[ax], UPP[ax])] = want_pairs[(UPP[ax], LOW[ax])] = None
            continue
        lo, up = nd.idx(mt, LOW[ax]), nd.idx(mt, UPP[ax])
        v = nd.neg(nd.mul(R.trans(ax), nd.ite(nd.gt0(nd.sub(nd.idx(P0, LOW[ax]), nd.idx(P0, UPP[ax]))), lo, up)))
        want_pairs[(LOW[ax], UPP[ax])] = want_pairs[(UPP[ax], LOW[ax])] = v
    for (r, k), v in want_pairs.items():
        if v is None:
            continue
        nm = '%s (%s)' % (keyname(r).replace(' faces,', ''), lab)
        got = co.get((r, k))
        if not c.ok('seven points', 'coupling from %s' % nm, got is not None, 'no entry couples the two cells of these faces', S.where):
            continue
        c.equal('coupling', 'coupling from %s' % nm, got, v, s.w)
        if r in LOW:
            c.equal('symmetric', 'couplings across %s' % nm, got, co.get((k, r), ZERO), s.w)
        d = S.dparts.get(r, ZERO)
    for (r, k), v in co.items():
        if (r, k) not in want_pairs:
            c.equal('seven points', 'entry of %s with %s (%s)' % (keyname(r), keyname(k), lab), v, ZERO, s.w)
    # diagonal
    for ax in range(3):
        if ax == 2 and 'one layer' in lab:
            continue
        for r, k in ((LOW[ax], UPP[ax]), (UPP[ax], LOW[ax])):
            c.equal('row sum', 'diagonal share of %s (%s)' % (keyname(r), lab), S.dparts.get(r, ZERO), nd.neg(co.get((r, k), ZERO)), s.w)
    wk = wellkeys(s)
    for k, v in S.dparts.items():
        if k in LOW or k in UPP:
            continue
        if k in wk and bhp:
            wi = s.w.nodeof(s.w.wells()[0], 'well_index')
            c.equal('row sum', 'diagonal share of the well (%s)' % lab, v, nd.mul(wi, nd.idx(mt, k)), s.w)
            continue
        c.equal('row sum', 'diagonal share of %s (%s)' % (keyname(k), lab), v, ZERO, s.w)
    c.equal('row sum', 'diagonal share of the accumulation (%s)' % lab, S.drest, accumulation(s), s.w)


def accumulation(s):
    w = s.w
    st = w.st.fork()
    a = [w.ip.tensor(st, w.nodeof(w.fl, x), 'grid') for x in ('pressure', 's_w', 's_g')]
    v, st, _ = w.call(w.fl, 'calc_total_compressibility', a, st=st)
    ct = w.ip.node(st, v)
    pv = nd.mul(grid('cfg.porosity'), DX, DY, DZ)
    return nd.div(nd.mul(pv, ct), DT)


# ---------------------------------------------------------------------------- C05
def C05(c):
    c.rule('accumulation', 'diagonal accumulation = pore volume x total compressibility / time step')
    c.rule('same coefficient', 'the right-hand side holds the diagonal accumulation times the pressure at the start of the step')
    for lab, s in worlds(c, PROD):
        guarded(c, 'accumulation', lab, c05, c, s, lab)


def c05(c, s, lab):
    S = System(s)
    P0 = s.w.nodeof(s.w.fl, 'pressure')
    c.equal('accumulation', 'diagonal (%s)' % lab, S.drest, accumulation(s), s.w)
    c.equal('same coefficient', 'right-hand side (%s)' % lab, S.rrest, nd.mul(S.drest, P0), s.w)
    # closed, uniform, no gravity: nothing else but faces and wells contributes
    wk = wellkeys(s)
    for k, v in S.rparts.items():
        if k in LOW or k in UPP or k in wk:
            continue
        c.equal('same coefficient', 'right-hand side of %s (%s)' % (keyname(k), lab), v, ZERO, s.w)


# ---------------------------------------------------------------------------- C07
def C07(c):
    c.rule('face transmissibility', 'coupling = - harmonic mean permeability x area / distance x total mobility, for permeabilities down to 1e-6 mD')
    c.rule('vertical permeability', 'faces normal to z use horizontal permeability times vertical fraction, the others horizontal permeability')
    c.rule('face transmissibility in fluxes', 'the water flux across a face is proportional to the same transmissibility')
    for lab, s in worlds(c, PROD, nz1=False):
        guarded(c, 'face transmissibility', lab, c07, c, s, lab)


def c07(c, s, lab):
    from fractions import Fraction as Fr
    S = System(s)
    P0 = s.w.nodeof(s.w.fl, 'pressure')
    R0 = Ref3(s, P0)
    co = couplings(S)
    mt = R0.mobt()
    W = Sat(s, 's_w')
    R = Ref3(s)
    for ax in range(3):
        lo, up = nd.idx(mt, LOW[ax]), nd.idx(mt, UPP[ax])
        v = nd.neg(nd.mul(R0.trans(ax), nd.ite(nd.gt0(nd.sub(nd.idx(P0, LOW[ax]), nd.idx(P0, UPP[ax]))), lo, up)))
        want = R.spec('face_flow', R.trans(ax), nd.idx(R.mob('w'), LOW[ax]), nd.idx(R.mob('w'), UPP[ax]), potential(s, R, 'w', ax, lab))
        for kind, rg in (('permeable rock', None), ('nearly tight rock', [('cfg.permeability', 1e-6, 1e-3, 'log')]),
                         ('tight next to permeable rock', [('cfg.permeability', 1e-6, 1e3, 'log')])):
            c.equal('face transmissibility', '%s faces, %s (%s)' % (AX[ax], kind, lab), co.get((LOW[ax], UPP[ax]), ZERO), v, s.w,
                    ranges=rg, tol=Fr(1, 1000))
            c.equal('face transmissibility in fluxes', '%s faces, %s (%s)' % (AX[ax], kind, lab), W.parts.get(UPP[ax], ZERO), want, s.w,
                    ranges=rg, tol=Fr(1, 1000))


# ---------------------------------------------------------------------------- C33
def C33(c):
    c.rule('volume moved between neighbours', 'what gravity and capillarity add to one cell of a face is taken from the other')
    c.rule('gravity of vertical faces', 'transmissibility x height x g x sum over phases of upstream mobility x density, hydrostatic pressure gives no flow')
    for lab, s in worlds(c, PROD):
        guarded(c, 'volume moved between neighbours', lab, c33, c, s, lab)


def c33(c, s, lab):
    S = System(s)
    w = s.w
    for ax in range(3):
        if ax == 2 and 'one layer' in lab:
            continue
        lo, up = S.rparts.get(LOW[ax], ZERO), S.rparts.get(UPP[ax], ZERO)
        c.equal('volume moved between neighbours', '%s faces (%s)' % (AX[ax], lab), nd.neg(lo), up, w)
    wk = wellkeys(s)
    for k, v in S.rparts.items():
        if not (k in LOW or k in UPP or k in wk):
            c.equal('volume moved between neighbours', 'right-hand side of %s (%s)' % (keyname(k), lab), v, ZERO, w)
    if 'one layer' in lab:
        return
    P0 = w.nodeof(w.fl, 'pressure')
    R = Ref3(s, P0)
    up_ = lambda f: nd.ite(nd.gt0(nd.sub(nd.idx(P0, LOW[2]), nd.idx(P0, UPP[2]))), nd.idx(f, LOW[2]), nd.idx(f, UPP[2]))
    tot = ZERO
    for ph in 'owg':
        tot = nd.add(tot, nd.mul(up_(R.mob(ph)), up_(w.nodeof(w.fl, 'rho_' + ph))))
    want = nd.mul(R.trans(2), DZ, G, tot)
    c.equal('gravity of vertical faces', 'volume into the upper cell (%s)' % lab, S.rparts.get(UPP[2], ZERO), want, w,
            over={'pccfg.pc_scale': 0})


RULES = {'C03': C03, 'C04': C04, 'C05': C05, 'C06': C06, 'C07': C07, 'C33': C33}

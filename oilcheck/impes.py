"""One sequential time step, taken apart: pressure system, saturation increments, faces, wells."""
from . import nodes as nd
from .nodes import mk, num, sym, N, ZERO, ONE
from .world import World, NX, NY, NZ, DX, DY, DZ, DT, grid, scalar
from .interp import AnalysisError
from .values import *
from .lib import Broken

AX = ('x', 'y', 'z')


def slkey(ax, lo, hi):
    k = [('sl', None, None)] * 3
    k[ax] = ('sl', lo, hi)
    k = tuple(k)
    while k and k[-1] == ('sl', None, None):
        k = k[:-1]
    return k


M1 = num(-1)
LOW = [slkey(a, None, M1) for a in range(3)]      # cells that have an upper neighbour
UPP = [slkey(a, ONE, None) for a in range(3)]     # cells that have a lower neighbour


class Step:
    """the exits of run_step of a symbolic simulator in an arbitrary state"""

    def __init__(self, c=None, **kw):
        sources = dict(kw.pop('sources', None) or {})
        try:
            self.w = w = World(sources=sources, **kw)
            for cls, ms in (('Simulator', ('run_step',)), ('Fluid', ('get_rel_perms',))):
                k = w.find_class(cls)
                for m in ms:
                    if k.lookup(m) is None:
                        raise Broken('%s.%s is gone' % (cls, m))
        except AnalysisError as e:
            if 'not found' in str(e):
                raise Broken(str(e))
            raise
        self.exits, self.events = w.step_exits()
        if c is not None:
            c.absorb(w.ip)
        self.good = []
        for k, st, v in self.exits:
            if k != 'return':
                continue
            n = w.ip.node(st, v) if v is not None else nd.NONE
            self.good.append((st, n))

    def done(self):
        """the state after a step that reported success (single exit expected)"""
        g = [(st, n) for st, n in self.good if n is not nd.FALSE]
        if len(g) != 1:
            raise AnalysisError('%d successful exits' % len(g))
        return g[0][0]

    def field(self, a, st=None):
        return self.w.nodeof(self.w.fl, a, st or self.done())

    # ---------------------------------------------------------------- new pressure
    def pnew(self):
        """the node of the pressure after the step"""
        return self.field('pressure')

    def abstract_p(self, n):
        """replace the new pressure by a plain symbol"""
        p = self.pnew()
        if p.op == 'sym':
            return n
        P = grid('P_new')
        m = {p: P}
        # flat solution vector
        b = p
        while b.op == 'idx' and b.args[1] in (('grid',),):
            b = b.args[0]
        m[b] = nd.idx(P, ('flat',))
        return nd.subst(n, m)

    # ---------------------------------------------------------------- saturations
    def sat(self, a):
        """(init, body, mu, count) of the substep loop of field a"""
        n = self.field(a)
        if n.op != 'loopval':
            raise AnalysisError('%s after a step is not a substep recurrence: %s' % (a, nd.show(n, 3)))
        return n

    def increment(self, a):
        """total volume change of the field in one step, limits aside:  inc * count * PV / dt"""
        n = self.field(a)
        old = self.w.nodeof(self.w.fl, a, self.w.st)
        if n.op == 'loopval':
            loop, init, body = n.args
            if init is not old:
                raise AnalysisError('substeps of %s do not start from the old value' % a)
            count = self.loop_count(loop)
            base = [x for x in nd.walk(body) if x.op == 'mu']
        else:
            count = ONE
            body = n
            base = [old]
        cand = []
        for x in nd.walk(body):
            if x.op != 'poly':
                continue
            t = nd.terms(x)
            for b in base:
                m = ((b, 1),)
                if t.get(m) == 1:
                    rest = {k: v for k, v in t.items() if k != m}
                    if not any(at in base for k in rest for at, _ in k):
                        cand.append((x, b, nd.from_terms(rest)))
        # the increment proper is the one with scattered contributions
        cand = [z for z in cand if any(y.op == 'sc' for y in nd.walk(z[2]))]
        return n, cand, count, base

    def loop_count(self, loop):
        r = loop.args[0]
        if r.op == 'range':
            lo, hi, stp = r.args
            if stp is ONE:
                return nd.sub(hi, lo)
        raise AnalysisError('substep loop is not a counted loop: ' + nd.show(loop, 3))


def has_scatter(n):
    """a scattered contribution outside an index operation"""
    st = [n]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if is_scatter(x):
            return True
        if x.op == 'poly':
            st.extend(a for m, _ in x.args for a, e in m)
        elif x.op == 'ite':
            st.extend(x.args[1:])
    return False


def scatter(F, world=None):
    """F as a sum of contributions to index sets: {key: value}, rest (values of the rest cover every cell)"""
    out = {}
    rest = []

    def put(key, v):
        out.setdefault(key, []).append(v)
    for m, cf in nd.terms(F).items():
        sca = [(i, a) for i, (a, e) in enumerate(m) if e == 1 and (is_scatter(a) or cell_store(a) or (a.op in ('ite', 'poly') and has_scatter(a)))]
        if len(sca) != 1:
            rest.append((m, cf))
            continue
        i, a = sca[0]
        others = nd.from_terms({tuple(x for j, x in enumerate(m) if j != i): cf})
        if is_scatter(a):
            key, v = scatter_parts(a, world)
            put(key, nd.mul(nd.idx(others, key), v))
        elif a.op == 'upd':
            # storing v in one cell adds the difference to what the cell held
            base, key, v = a.args
            key = cell_store(a)
            pb, rb = scatter(base, world)
            for k, x in pb.items():
                put(k, nd.mul(nd.idx(others, k), x))
            put(key, nd.mul(nd.idx(others, key), nd.sub(v, nd.idx(base, a.args[1]))))
            rest.extend(nd.terms(nd.mul(others, rb)).items())
        elif a.op == 'ite':
            c, x, y = a.args
            px, rx = scatter(x, world)
            py, ry = scatter(y, world)
            for key in list(px) + [k for k in py if k not in px]:
                put(key, nd.mul(nd.idx(others, key), nd.ite(nd.idx(c, key), px.get(key, ZERO), py.get(key, ZERO))))
            r = nd.mul(others, nd.ite(c, rx, ry))
            rest.extend(nd.terms(r).items())
        else:
            px, rx = scatter(a, world)
            for key, v in px.items():
                put(key, nd.mul(nd.idx(others, key), v))
            rest.extend(nd.terms(nd.mul(others, rx)).items())
    acc = {}
    for m, cf in rest:
        acc[m] = acc.get(m, 0) + cf
    return {k: nd.add(*v) for k, v in out.items()}, nd.from_terms(acc)


def cell_store(a):
    """the cell a single element store writes, None for any other node"""
    if a.op != 'upd' or not all(isinstance(k, N) for k in a.args[1]):
        return None
    if len(a.args[1]) == 3:
        return a.args[1] if all(k.op in ('sym', 'num', 'poly') for k in a.args[1]) else None
    return nd.decode_flat(a.args[1][0]) if len(a.args[1]) == 1 else None


def is_scatter(a):
    return a.op == 'sc' or (a.op == 'idx' and a.args[0].op == 'sc' and a.args[1] in (('grid',), ('flat',)))


def scatter_parts(a, world=None):
    if a.op == 'idx':
        a = a.args[0]
    key, v = a.args
    if len(key) == 1 and isinstance(key[0], N):
        if key[0].op == 'ix' and world is not None:
            k = index_set(key[0].args[0], world)
            if k is not None:
                return k, unflat(v)
        d = nd.decode_flat(key[0])
        if d:
            key = d
    return key, v


def unflat(n):
    """drop the flattening of fields (values listed in the order of the flattened index set)"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == 'idx' and x.args[1] == ('flat',):
                r = go(x.args[0])
            else:
                r = nd.rebuild(x, go)
            memo[x] = r
        return r
    return go(n)


_iset = {}
STRIDE = (nd.mul(NY, NZ), NZ, ONE)


def index_set(n, world):
    """the face side (LOW/UPP key) a list of flat cell numbers denotes, None if unknown; 'all' for every cell"""
    if n in _iset:
        return _iset[n]
    r = _index_set(n, world)
    _iset[n] = r
    return r


def _index_set(n, world):
    from .ri import equiv
    total = nd.mul(NX, NY, NZ)
    if n.op == 'arange' and n.args[0] is ZERO and nd.sub(n.args[1], total) is ZERO:
        return 'all'
    base, off = None, ZERO
    for m, cf in nd.terms(n).items():
        if cf == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'idx' and any(y.op == 'arange' for y in nd.walk(m[0][0])):
            base = m[0][0]
    if base is None:
        return None
    off = nd.sub(n, base)
    sel = base.args[1]
    arr = base.args[0]
    # grid-shaped numbering cut like a field, then flattened
    if base.args[1] == ('flat',) and arr.op == 'idx' and arr.args[0].op == 'idx' and arr.args[0].args[1] == ('grid',):
        key = arr.args[1]
        if off is ZERO and (key in LOW or key in UPP):
            return key
        return None
    if arr.op != 'arange' or index_set(arr, world) != 'all' or len(sel) != 1 or not isinstance(sel[0], N):
        return None
    cell = sym('cell')
    nd.SHAPES[cell] = 'scalar'
    mask = nd.subst(sel[0], {arr: cell})
    crd = (mk('fdiv', cell, STRIDE[0]), mk('mod', mk('fdiv', cell, NZ), NY), mk('mod', cell, NZ))
    dims = (NX, NY, NZ)
    for ax in range(3):
        lo = nd.gt0(nd.sub(nd.sub(dims[ax], ONE), crd[ax]))
        up = nd.gt0(crd[ax])
        rg = dict(ranges=[('cell', 0, 200, 'int')], cond=nd.gt0(nd.sub(total, cell)))
        if nd.sub(off, ZERO) is ZERO:
            if equiv(mask, lo, world, points=60, **rg):
                return LOW[ax]
            if equiv(mask, up, world, points=60, **rg):
                return UPP[ax]
        elif nd.sub(off, STRIDE[ax]) is ZERO:
            if equiv(mask, lo, world, points=60, **rg):
                return UPP[ax]
        elif nd.add(off, STRIDE[ax]) is ZERO:
            if equiv(mask, up, world, points=60, **rg):
                return LOW[ax]
    return None


class System:
    """the assembled pressure system of the first solver call"""

    def __init__(self, step):
        self.step = step
        w = step.w
        ls = [e for e in step.events if e.kind == 'linsolve']
        if not ls:
            raise AnalysisError('no assembled pressure system reaches a solver')
        self.calls = ls
        self.where = ls[0].where()
        args = list(ls[0].args)
        pos = [a for a in args if a.op != 'kw']
        kws = {a.args[0]: a.args[1] for a in args if a.op == 'kw'}
        A = next(a for a in pos + list(kws.values()) if a.op in ('spcoo', 'spcsr'))
        others = [a for a in pos if a is not A] or [v for k, v in kws.items() if k in ('b', 'rhs', 'Q')]
        self.A = A
        self.rhs = others[0]
        self.kws = kws
        if A.op != 'spcoo' or A.args[0].op != 'stack':
            raise AnalysisError('matrix is not assembled from coordinates')
        rows, cols = [catlist(x) for x in A.args[0].args[:2]]
        vals = catlist(A.args[1])
        if not (len(rows) == len(cols) == len(vals)):
            raise AnalysisError('matrix blocks do not line up')
        self.off, self.diag = [], None
        for r, c, v in zip(rows, cols, vals):
            rk, ck = index_set(r, w), index_set(c, w)
            if rk == 'all' and ck == 'all':
                self.diag = v if self.diag is None else nd.add(self.diag, v)
            elif rk is None or ck is None:
                raise AnalysisError('cannot tell which cells a matrix block couples: %s / %s' % (nd.show(r, 5), nd.show(c, 5)))
            else:
                self.off.append((rk, ck, unflat(v)))
        if self.diag is None:
            raise AnalysisError('no diagonal block')
        self.dparts, self.drest = scatter(self.diag, w)
        self.drest = unflat(self.drest)
        self.rparts, self.rrest = scatter(self.rhs, w)
        self.rrest = unflat(self.rrest)


def catlist(n):
    from .ext import catparts
    return catparts(n)


class Sat:
    """saturation update of one phase: flux balance per face set and per well cell"""

    def __init__(self, step, a):
        self.step = step
        self.n = step.field(a)
        w = step.w
        old = w.nodeof(w.fl, a, w.st)
        n = self.n
        if n.op == 'loopval':
            loop, init, body, mu = n.args
            self.init_ok = init is old
            self.count = step.loop_count(loop)
            base = mu
        else:
            self.init_ok = True
            self.count = ONE
            body, base = n, old
        self.body, self.base = body, base
        cand = []
        for x in nd.walk(body):
            if x.op != 'poly':
                continue
            t = nd.terms(x)
            m = ((base, 1),)
            cf = t.get(m)
            if cf in (1, -1):
                rest = {k: v for k, v in t.items() if k != m}
                if not any(base in set(nd.walk(at)) for k in rest for at, _ in k):
                    r = nd.from_terms({k: v / cf for k, v in rest.items()})
                    if any(y.op == 'sc' for k in rest for at, _ in k for y in nd.walk(at)):
                        cand.append(r)
        cand = list(dict.fromkeys(cand))
        if len(cand) != 1:
            raise AnalysisError('increment of %s not found (%d candidates)' % (a, len(cand)))
        self.inc = cand[0]
        pv = w.nodeof(w.res, 'porous_volume')
        total = nd.mul(self.inc, self.count, nd.inv(DT), pv)
        total = step.abstract_p(total)
        self.parts, self.rest = scatter(total, w)


class Ref3:
    """reference quantities of a step, built from public quantities only"""

    def __init__(self, step, P=None):
        self.step = step
        self.w = w = step.w
        self.P = grid('P_new') if P is None else P
        self.ip = w.ip
        self.dims = w.attr(w.res, 'dimensions')
        st = w.st.fork()
        sw = w.ip.tensor(st, w.nodeof(w.fl, 's_w'), 'grid')
        v, st, _ = w.call(w.fl, 'get_rel_perms', [sw], st=st)
        kro, krw, krg = [w.ip.node(st, x) for x in (v if isinstance(v, tuple) else [w.ip.getitem(v, num(i), st, None) for i in range(3)])]
        self.kr = {'o': kro, 'w': krw, 'g': krg}

    def spec(self, name, *args):
        w = self.w
        f = w.find_func(name, 'oilspec')
        st = w.st.fork()
        av = []
        for a in args:
            if isinstance(a, N) and nd.shape_of(a) not in ('scalar',) and a.op not in ('str', 'none'):
                a = w.ip.tensor(st, a, 'grid' if nd.shape_of(a) == 'grid' else None)
            av.append(a)
        v = w.ip.call_func(f, av, {}, st, None)
        return w.ip.node(st, v)

    def col(self, name, P=None):
        fn = 'column_or_zero' if name == 'Rv_m3m3' else 'column'
        return self.spec(fn, sym('cfg.pvt_path'), self.P if P is None else P, string(name), self.dims)

    def mu(self, ph, P=None):
        if self.w.pvt_on:
            return nd.mul(self.col('mu_%s_cP' % ph, P), num(0.001))
        return nd.mul(scalar('cfg.mu_' + {'o': 'oil', 'w': 'water', 'g': 'gas'}[ph]), num(0.001))

    def mob(self, ph, P=None):
        return nd.div(self.kr[ph], self.mu(ph, P))

    def mobt(self, P=None):
        return nd.add(*[self.mob(x, P) for x in 'owg'])

    def perm(self, ax):
        k = nd.mul(grid('cfg.permeability'), num(9.869233e-16))
        return nd.mul(k, grid('cfg.k_vertical_fraction')) if ax == 2 else k

    def trans(self, ax):
        k = self.perm(ax)
        d = (DX, DY, DZ)
        area = nd.mul(*[d[i] for i in range(3) if i != ax])
        return self.spec('transmissibility', nd.idx(k, LOW[ax]), nd.idx(k, UPP[ax]), area, d[ax])

    def rho(self, ph):
        """density at the pressure the fluid object holds when asked (current state)"""
        return self.step.abstract_p(self.w.nodeof(self.w.fl, 'rho_' + ph, self.step.done()))


from .nodes import string       # noqa: E402


class WellRef:
    """what one well has to do to its cell in a step, from its configuration and the cell's state"""

    def __init__(self, step, R, n, mode):
        self.step, self.R, self.mode = step, R, mode
        w = step.w
        e = w.wsym[n]
        self.e = e
        self.key = (e['i'], e['j'], e['k'])
        at = lambda x: nd.idx(x, self.key)
        self.at = at
        self.m = {p: at(R.mob(p)) for p in 'owg'}
        self.mt = nd.add(*[self.m[p] for p in 'owg'])
        self.f = {p: nd.div(self.m[p], self.mt) for p in 'owg'}
        self.sw, self.sg = at(w.nodeof(w.fl, 's_w')), at(w.nodeof(w.fl, 's_g'))
        self.pv = at(w.nodeof(w.res, 'porous_volume'))
        rp = sym('rpcfg')
        self.sw_cr = mk('get', rp, string('sw_cr'), num(0.2))
        self.so_r = mk('get', rp, string('so_r'), num(0.2))
        self.sg_cr = mk('get', rp, string('sg_cr'), num(0))
        self.scale = mk('get', sym('sim_params'), string('global_rate_scale'), num(1))
        self.wi = w.nodeof(w.wells()[n], 'well_index')
        self.inj = mode['type'] == 'injector'
        if w.pvt_on:
            self.B = {p: at(R.col('B' + p)) for p in 'owg'}
            self.Rs, self.Rv = at(R.col('Rs_m3m3')), at(R.col('Rv_m3m3'))
            # surface volume of each phase per reservoir volume withdrawn
            self.eo = nd.add(nd.div(self.f['o'], self.B['o']), nd.div(nd.mul(self.f['g'], self.Rv), self.B['g']))
            self.ew = nd.div(self.f['w'], self.B['w'])
            self.eg = nd.add(nd.div(self.f['g'], self.B['g']), nd.div(nd.mul(self.f['o'], self.Rs), self.B['o']))

    def rate(self):
        """configured rate, m3/s"""
        return nd.div(nd.mul(self.e['control_value'], self.scale), num(86400))

    def rate_res(self):
        """signed reservoir rate before choking and limits"""
        q = self.rate()
        m = self.mode
        if m.get('rate_type') == 'surface' and self.step.w.pvt_on:
            if self.inj:
                return nd.mul(q, self.B['g' if m.get('injected_phase') == 'gas' else 'w'])
            e = {'oil': self.eo, 'water': self.ew, 'gas': self.eg}.get(m.get('surface_phase'), nd.add(self.eo, self.ew))
            return nd.neg(nd.div(q, e))
        return q if self.inj else nd.neg(q)

    def choked(self, q):
        """only wells whose effect on the cell is known: injectors, and producers with PVT tables"""
        if not self.inj and not self.step.w.pvt_on:
            return q
        f = nd.div(nd.mul(DT, q), self.pv)
        if self.inj:
            gas = self.mode.get('injected_phase') == 'gas'
            dw, dg = (ZERO, f) if gas else (f, ZERO)
        else:
            dw, dg = nd.mul(f, self.f['w']), nd.mul(f, self.f['g'])
        return self.R.spec('choke', q, dw, dg, self.sw, self.sg, self.sw_cr, self.so_r, self.sg_cr)

    def limited(self, q):
        if self.inj or not self.step.w.pvt_on or not self.mode.get('limits'):
            return q
        w = self.step.w
        lims = self.step.w.ip.new(w.st, DC({string(k): self.e_lim(k) for k in self.mode['limits']}, None))
        f = w.find_func('limited', 'oilspec')
        st = w.st.fork()
        return w.ip.node(st, w.ip.call_func(f, [q, lims, self.eo, self.ew, self.eg], {}, st, None))

    def e_lim(self, k):
        n = self.step.w.wsym.index(self.e)
        return scalar('w%d.lim.%s' % (n, k))

    def q_rate(self):
        return self.limited(self.choked(self.rate_res()))

    def q_bhp(self, pbhp_mpa):
        p = self.at(self.R.P)
        return nd.neg(nd.mul(self.wi, self.mt, nd.sub(p, nd.mul(pbhp_mpa, num(10 ** 6)))))

    def on_min(self):
        """the rate cannot be met at or above the minimum bottom-hole pressure (judged at the start of the step)"""
        w = self.step.w
        P0 = w.nodeof(w.fl, 'pressure')
        R0 = Ref3(self.step, P0)
        mt0 = self.at(R0.mobt())
        req = nd.sub(self.at(P0), nd.div(self.rate(), nd.mul(self.wi, mt0)))
        return nd.gt0(nd.sub(nd.mul(self.e['bhp_min'], num(10 ** 6)), req))

    def q(self):
        """signed reservoir volume rate into the cell"""
        if self.mode['control_type'] == 'bhp':
            return self.q_bhp(self.e['control_value'])
        q = self.q_rate()
        if self.mode.get('bhp_min') and not self.inj:
            return nd.ite(self.on_min(), self.q_bhp(self.e['bhp_min']), q)
        return q

    def phases(self, q=None):
        q = self.q() if q is None else q
        if self.inj:
            if self.mode.get('injected_phase') == 'gas':
                return {'w': ZERO, 'g': q}
            return {'w': q, 'g': ZERO}
        return {'w': nd.mul(q, self.f['w']), 'g': nd.mul(q, self.f['g'])}

    def components(self, q=None):
        """surface volumes booked in one step: (oil in, oil out, gas in, gas out)"""
        q = self.q() if q is None else q
        z = ZERO
        if not self.step.w.pvt_on:
            return (z, z, z, z)
        if self.inj:
            if self.mode.get('injected_phase') != 'gas':
                return (z, z, z, z)
            g = nd.mul(DT, nd.div(nd.maxn(q, ZERO), self.B['g']))
            return (nd.mul(self.Rv, g), z, g, z)
        out = nd.mul(DT, nd.maxn(nd.neg(q), ZERO))
        return (z, nd.mul(out, self.eo), z, nd.mul(out, self.eg))

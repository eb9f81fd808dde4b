"""helpers of the demonstrations (a copy lies beside every demo)"""
import contextlib
import io
import json
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
import torch

CPU = torch.device('cpu')
SCRATCH = tempfile.mkdtemp(prefix='demo_')
import atexit
atexit.register(shutil.rmtree, SCRATCH, True)

PVT = {'pressure_MPa': [5., 10., 20., 30.], 'Bo': [1.10, 1.15, 1.20, 1.18], 'Bw': [1.02, 1.01, 1.005, 1.0],
       'Bg': [.02, .01, .005, .004], 'mu_o_cP': [1.2, 1.1, 1.0, 1.05], 'mu_w_cP': [.5, .51, .52, .53],
       'mu_g_cP': [.015, .018, .02, .022], 'Rs_m3m3': [20., 40., 60., 60.], 'Rv_m3m3': [0.001, 0.002, 0.004, 0.006]}


def pvt_file(**change):
    p = os.path.join(SCRATCH, 'pvt%d.json' % len(os.listdir(SCRATCH)))
    with open(p, 'w') as f:
        json.dump(dict(PVT, **change), f)
    return p


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def build(dims=(4, 3, 2), size=(50., 40., 5.), wells=(), fluid=None, sim=None, res=None, pvt=True):
    from simulator.reservoir import Reservoir
    from simulator.fluid import Fluid
    from simulator.well import WellManager
    from simulator.simulation import Simulator
    with quiet():
        r = Reservoir(dict({'dimensions': list(dims), 'grid_size': list(size), 'porosity': 0.2, 'permeability': 100.,
                            'k_vertical_fraction': .1}, **(res or {})), CPU)
        f = {'pressure': 20., 's_w': 0.35, 's_g': 0.1, 'mu_oil': 1., 'mu_water': .5, 'mu_gas': .02, 'rho_oil': 800.,
             'rho_water': 1000., 'rho_gas': 1., 'c_oil': 1e-3, 'c_water': 1e-4, 'c_gas': 1e-2, 'c_rock': 1e-5,
             'relative_permeability': {'nw': 2, 'no': 2, 'sw_cr': .2, 'so_r': .2}}
        if pvt:
            f['pvt_path'] = pvt_file()
        f.update(fluid or {})
        fl = Fluid(f, r, CPU)
        wm = WellManager([dict({'name': 'W%d' % n, 'radius': .1}, **w) for n, w in enumerate(wells)], r)
        s = Simulator(r, fl, wm, dict({'solver_type': 'impes'}, **(sim or {})), CPU)
    return s


def step(s, days=1.0):
    with quiet():
        return s.run_step(days * 86400.)


def check(ok, what):
    if not ok:
        print('DEMO FAILED: ' + what)
        sys.exit(1)
    print('ok: ' + what)


def close(a, b, rel=1e-4):
    return abs(a - b) <= rel * max(abs(a), abs(b), 1e-30)

"""Reference semantics, written in the language of the repository and interpreted by the same analysis."""

SPEC = r'''
import json
import numpy as np
import torch


def column(path, P, name, dims):
    """table column `name` at pressure P (Pa)"""
    with open(path, "r", encoding="utf-8") as f:
        data = json.load(f)
    xp = np.asarray(data["pressure_MPa"], dtype=np.float64)
    fp = np.asarray(data.get(name, []), dtype=np.float64)
    p = (P.detach().to('cpu').numpy() / 1e6).astype(np.float64)
    v = np.interp(p, xp, fp, left=fp[0], right=fp[-1])
    return torch.from_numpy(v).to('cpu', dtype=torch.float32).reshape(dims)


def column_or_zero(path, P, name, dims):
    with open(path, "r", encoding="utf-8") as f:
        data = json.load(f)
    xp = np.asarray(data["pressure_MPa"], dtype=np.float64)
    raw = data.get(name)
    if raw is None:
        fp = np.zeros_like(np.asarray(data.get("Rs_m3m3", []), dtype=np.float64), dtype=np.float64)
    else:
        fp = np.asarray(raw, dtype=np.float64)
    p = (P.detach().to('cpu').numpy() / 1e6).astype(np.float64)
    v = np.interp(p, xp, fp, left=fp[0], right=fp[-1])
    return torch.from_numpy(v).to('cpu', dtype=torch.float32).reshape(dims)


def face_flow(T, mlo, mup, pot):
    return T * torch.where(pot > 0, mlo, mup) * pot


def transmissibility(klo, kup, area, dist):
    return 2 * klo * kup / (klo + kup) * area / dist


def choke(q, dSw, dSg, sw, sg, sw_cr, so_r, sg_cr):
    """largest fraction of q which keeps water and gas of the cell inside the mobile range"""
    a = 1.0
    if dSw > 0.0:
        a = min(a, max(0.0, 1.0 - so_r - sg - sw) / dSw)
    elif dSw < 0.0:
        a = min(a, max(0.0, sw - sw_cr) / (-dSw))
    if dSg > 0.0:
        a = min(a, max(0.0, 1.0 - so_r - sw - sg) / dSg)
    elif dSg < 0.0:
        a = min(a, max(0.0, sg - sg_cr) / (-dSg))
    return q * max(0.0, min(1.0, a))


def limited(q, lim, eo, ew, eg):
    """|q| capped by the surface limits; e*: surface volume of oil/water/gas per reservoir volume"""
    m = abs(q)
    if 'wopr' in lim:
        m = min(m, lim['wopr'] / 86400.0 / eo)
    if 'wlpr' in lim:
        m = min(m, lim['wlpr'] / 86400.0 / ew)
    if 'wgpr' in lim:
        m = min(m, lim['wgpr'] / 86400.0 / eg)
    if 'liqr' in lim:
        m = min(m, lim['liqr'] / 86400.0 / (eo + ew))
    return -m
'''

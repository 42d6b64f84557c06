"""Independent geometry reference used by several properties."""
from pv import *


def wrap_half(d):
    """into [-0.5, 0.5), one element at a time"""
    n = np.floor(d + 0.5)
    r = d - n
    r = np.where(r >= 0.5, r - 1, r)
    return np.where(r < -0.5, r + 1, r)


def pair_dists(cf, cell, pbc):
    n = len(cf)
    dvf = np.empty((n, n, 3))
    for i in range(n):
        for j in range(n):
            dvf[i, j] = cf[i] - cf[j]
    if pbc:
        dvf = wrap_half(dvf)
    dv = dvf @ cell
    return np.sqrt((dv**2).sum(-1)), dv, dvf


def my_cc(cell):
    n = np.sqrt((cell**2).sum(1))
    ang = lambda i, j: np.degrees(np.arccos(np.clip(cell[i] @ cell[j] / n[i] / n[j], -1, 1)))
    return np.array(list(n) + [ang(1, 2), ang(0, 2), ang(0, 1)])

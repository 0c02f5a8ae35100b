"""Reference definitions: topology measures (P23)."""
import os
import sys
import numpy as np
import scipy.ndimage
from time import time
from skimage.measure import label
from . import ViteBetti as VB


def EulerCharacteristic(data, thres=0.5, neighbors=6, speed_up='cython', verbose=True, n_jobs=None):
    above = (data > thres).astype(np.int32)
    field = above if neighbors in (4, 6) else 1 - above
    how = speed_up.lower()
    if how == 'cython' and VB.cython_available:
        cells = VB.CubeMap_cython(field)
    elif how == 'numba' and VB.numba_available:
        cells = VB.CubeMap_numba(field)
    elif how == 'torch' and VB.torch_available:
        cells = VB.CubeMap_torch(field)
    else:
        if n_jobs == -1:
            n_jobs = os.cpu_count()
        if n_jobs is None or n_jobs == 1 or not VB.joblib_available:
            cells = VB.CubeMap(field)
        else:
            cells = VB.CubeMap_joblib(field, n_jobs=n_jobs)
    which, count = np.unique(cells, return_counts=True)
    number = dict(zip(which, count))
    return float(number.get(1, 0) - number.get(2, 0) + number.get(3, 0) - number.get(4, 0))


def betti0(data, thres=0.5, neighbors=6):
    above = (data > thres)*1
    return label(above, return_num=1, connectivity=1 if neighbors in (4, 6) else 2)[1]


def betti2(data, thres=0.5, neighbors=6):
    below = 1 - (data > thres)*1
    return label(below, return_num=1, connectivity=1 if neighbors in (4, 6) else 2)[1]


def betti1(data, thres=0.5, neighbors=6, b0=None, b2=None, chi=None, speed_up='cython', verbose=True, n_jobs=None):
    if chi is None:
        chi = EulerCharacteristic(data, thres=thres, neighbors=neighbors, speed_up=speed_up, verbose=verbose, n_jobs=n_jobs)
    if b0 is None:
        b0 = betti0(data, thres=thres, neighbors=neighbors)
    if b2 is None:
        b2 = betti2(data, thres=thres, neighbors=neighbors)
    return b0 + b2 - chi


def count_neighbors_once(data, stela):
    inside = scipy.ndimage.convolve(data, np.ones((3, 3, 3)), mode='wrap')*data
    shaped = scipy.ndimage.convolve(data, stela, mode='wrap')*data
    which, count = np.unique(shaped[shaped == inside], return_counts=1)
    hits = count[which == stela.sum()]
    return 0 if hits.size == 0 else hits[0]


def count_neighbors(data, stela):
    turned = np.rot90(stela, 2, (0, 2))
    n = count_neighbors_once(data, stela)
    n += count_neighbors_once(data, np.rot90(stela, 1, (0, 1)))
    n += count_neighbors_once(data, np.rot90(stela, 2, (0, 1)))
    n += count_neighbors_once(data, np.rot90(stela, 3, (0, 1)))
    n += count_neighbors_once(data, turned)
    n += count_neighbors_once(data, np.rot90(turned, 1, (0, 1)))
    n += count_neighbors_once(data, np.rot90(turned, 2, (0, 1)))
    n += count_neighbors_once(data, np.rot90(turned, 3, (0, 1)))
    return n


def genus(data, xth=0.5):
    above = (data >= xth).astype(int)
    below = 1 - above
    corner = np.zeros((3, 3, 3))
    corner[:2, :2, :2] = 1
    d = np.zeros((3, 3, 3))
    for p in ((0, 0, 0), (0, 0, 1), (0, 0, 2), (0, 1, 0), (0, 1, 1), (0, 1, 2), (1, 1, 0), (1, 1, 1), (1, 1, 2),
              (1, 0, 0), (1, 0, 1), (1, 0, 2), (2, 0, 1), (2, 0, 2), (2, 1, 1), (2, 1, 2)):
        d[p] = 1
    e = np.zeros((3, 3, 3))
    for p in ((0, 1, 0), (0, 1, 1), (0, 1, 2), (1, 1, 0), (1, 1, 2), (1, 2, 1), (1, 2, 2), (2, 2, 1), (2, 1, 1), (1, 0, 0), (1, 0, 1), (2, 0, 1),
              (0, 0, 0), (0, 0, 1), (0, 0, 2), (1, 0, 2), (2, 0, 2), (2, 1, 2), (2, 2, 2), (1, 1, 1)):
        e[p] = 1
    f = np.zeros((3, 3, 3))
    for p in ((0, 1, 0), (0, 1, 1), (0, 2, 1), (1, 2, 1), (1, 2, 2), (1, 1, 2), (2, 1, 2), (2, 1, 1), (2, 0, 1), (1, 0, 1), (1, 0, 0), (1, 1, 0),
              (0, 0, 0), (0, 0, 1), (0, 0, 2), (0, 2, 2), (1, 0, 2), (2, 0, 2), (1, 1, 1)):
        f[p] = 1

    def both(shape):
        return count_neighbors(above, shape) + count_neighbors(below, shape)
    a3, a4, a5, a6 = both(corner), both(d), both(e), both(f)
    return 1 + (a4 + 2*(a5 + a6) - a3)/8.

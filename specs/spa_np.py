"""Reference definitions: spherical averages (P25, P24)."""
import numpy as np
from scipy.signal import fftconvolve, convolve
from skimage import morphology


def spa_np(data, xth=0.95, nscales=30, binning='log', verbose=True, use_fftconvolve=True):
    n = data.shape[0]
    if binning == 'linear':
        R = np.linspace(1, n/2., nscales)
    elif binning == 'log':
        R = np.exp(np.linspace(np.log(2.), np.log(n/2.), nscales))
    else:
        raise ValueError('binning')
    largest = np.zeros(data.shape)
    for i in range(nscales):
        k = morphology.ball(R[i])
        if use_fftconvolve:
            s = fftconvolve(data, k/k.sum(), mode='same')
        else:
            s = convolve(data, k/k.sum(), mode='same')
        largest[s >= xth] = R[i]
    c = np.zeros(nscales)
    for i in range(nscales):
        c[i] = largest[largest == R[i]].size
    return R, c


def put_sphere(array, centre, radius, label=1, periodic=True, verbose=False):
    assert array.ndim == 3
    nx, ny, nz = array.shape
    at = np.argwhere(np.isfinite(array))
    d2 = ((at[:, 0] - centre[0])**2 + (at[:, 1] - centre[1])**2 + (at[:, 2] - centre[2])**2).reshape(array.shape)
    array[d2 <= radius**2] = label
    if periodic:
        p2 = ((at[:, 0] + nx - centre[0])**2 + (at[:, 1] + ny - centre[1])**2 + (at[:, 2] + nz - centre[2])**2).reshape(array.shape)
        array[p2 <= radius**2] = label
    return array

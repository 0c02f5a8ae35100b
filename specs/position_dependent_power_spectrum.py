"""Reference definitions for position_dependent_power_spectrum.py: integrated bispectrum from sub-volumes."""
import numpy as np
from .power_spectrum import *


def power_spectrum_response(cube, cube2=None, Ncuts=4, kbins=15, box_dims=244/.7, binning='log', verbose=True):
    if cube2 is None:
        cube2 = cube
    return integrated_bispectrum_cross(cube, cube2, Ncuts=Ncuts, kbins=kbins, box_dims=box_dims, binning=binning, normalize=True, verbose=verbose)


def integrated_bispectrum(cube, Ncuts=4, kbins=15, box_dims=244/.7, binning='log', normalize=False, verbose=True):
    return integrated_bispectrum_cross(cube, cube, Ncuts=Ncuts, kbins=kbins, box_dims=box_dims, binning=binning, normalize=normalize, verbose=verbose)


def integrated_bispectrum_cross(cube1, cube2, Ncuts=4, kbins=15, box_dims=244/.7, binning='log', normalize=False, verbose=True):
    assert cube1.shape == cube2.shape
    assert cube1.shape[0] % Ncuts == 0 and cube1.shape[1] % Ncuts == 0 and cube1.shape[2] % Ncuts == 0
    L = [cube1.shape[0]/Ncuts, cube1.shape[1]/Ncuts, cube1.shape[2]/Ncuts]
    centres = [[L[0]/2 + i*L[0], L[1]/2 + j*L[1], L[2]/2 + k*L[2]] for i in range(Ncuts) for j in range(Ncuts) for k in range(Ncuts)]
    n = Ncuts**3
    B, P, s2 = np.zeros(kbins, dtype=np.float64), np.zeros(kbins, dtype=np.float64), 0
    for i in range(n):
        part1 = cube1*_W_L(cube1, centres[i], L)
        part2 = cube2*_W_L(cube2, centres[i], L)
        pk, ks = power_spectrum_1d(part1, kbins=kbins, box_dims=box_dims, binning=binning)
        mean = part2.sum(dtype=np.float64)/(L[0]*L[1]*L[2])
        B += pk*mean
        P += pk
        s2 += mean**2
    B, P, s2 = B/n, P/n, s2/n
    if normalize:
        return B/P/s2, ks
    return B, ks


def _W_L(array, rL, L):
    assert array.ndim == np.array(rL).size
    if np.array(L).size == 1:
        L = [L for i in range(array.ndim)]
    out = np.zeros(array.shape)
    lo = [int(rL[i] - L[i]/2) for i in range(3)]
    hi = [int(rL[i] + L[i]/2) for i in range(3)]
    out[lo[0]:hi[0], lo[1]:hi[1], lo[2]:hi[2]] = 1
    return out

"""Recorded guards of spa_np.py: which arguments and states are refused."""
import numpy as np
from . import usefuls
from scipy.signal import fftconvolve, convolve
from skimage import morphology
from tqdm import tqdm

def spa_np(data, xth=0.95, nscales=30, binning='log', verbose=True, use_fftconvolve=True):
    if binning == 'linear':
        pass
    elif binning == 'log':
        pass
    else:
        raise Exception()
    return 0

def put_sphere(array, centre, radius, label=1, periodic=True, verbose=False):
    assert array.ndim == 3
    return 0

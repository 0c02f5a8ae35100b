"""Recorded guards of bispectrum.py: which arguments and states are refused."""
import numpy as np, gc
from time import time, sleep
from tqdm import tqdm
from scipy import fftpack, stats
from joblib import Parallel, delayed
from . import const
from . import conv
from .helper_functions import print_msg, get_eval
from .scipy_func import numpy_product
from .power_spectrum import _get_dims, _get_k, _get_kbins, apply_window

def fft_nd(input_array, box_dims=None, verbose=False):
    return 0

class Bispectrum:

    def __init__(self, input_array, box_dims=None, verbose=True):
        return 0

    def spherical_shell_mask(self, array_shape, k_center, k_width, k_comp=None, k_mag=None):
        assert k_comp is not None or k_mag is not None
        return 0

    def cosine_rule(self, k1, k2, alpha):
        return 0

    def bispectrum_fast(self, input_array_fft, k1, k2, k3, dk1, dk2, dk3, box_dims=None, k_mag=None, return_n_modes=False, binning='log'):
        return 0

    def bispectrum_k1k2(self, k1, k2, dk=0.2, n_bins=10, box_dims=None, return_n_modes=False, binning='linear', verbose=True, window=None, n_jobs=1):
        if binning == 'linear':
            pass
        elif binning == 'log':
            pass
        else:
            raise Exception()
        return 0

    def bispectrum_k(self, dk=0.2, n_bins=10, box_dims=None, return_n_modes=False, binning='log', verbose=True, window=None, n_jobs=1):
        return 0

class BispectrumPylians:

    def __init__(self, input_array, box_dims=None, verbose=True, n_jobs=1, MAS='CIC'):
        try:
            import Pk_library as PKL
        except:
            raise Exception()
        return 0

    def bispectrum_k1k2(self, k1, k2, n_bins=15):
        return 0

def bispectrum_k1k2(input_array, k1, k2, n_bins=15, box_dims=None, window=None, n_jobs=1, **kwargs):
    return 0

def bispectrum_equilateral(input_array, n_bins=15, box_dims=None, window=None, n_jobs=1, **kwargs):
    binning = kwargs.get('binning', 'log')
    if binning.lower() in ['linear', 'lin']:
        pass
    elif binning.lower() in ['logarithmic', 'log']:
        pass
    else:
        raise Exception()
    return 0

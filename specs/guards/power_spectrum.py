"""Recorded guards of power_spectrum.py: which arguments and states are refused."""
import numpy as np, gc
from . import const
from . import conv
from .helper_functions import print_msg, get_eval
from .scipy_func import numpy_product
from scipy import fftpack, stats

def apply_window(input_array, window):
    if window is None:
        return 0
    from scipy.signal import windows
    if not isinstance(window, str):
        return 0
    if window.lower() == 'blackmanharris':
        return 0
    elif window.lower() == 'tukey':
        return 0
    raise Exception()
    return 0

def power_spectrum_nd(input_array, box_dims=None, verbose=False, **kwargs):
    return 0

def cross_power_spectrum_nd(input_array1, input_array2, box_dims, **kwargs):
    assert input_array1.shape == input_array2.shape
    return 0

def radial_average(input_array, box_dims, kbins=10, binning='log', breakpoint=0.1, **kwargs):
    return 0

def power_spectrum_1d(input_array_nd, kbins=100, box_dims=None, return_n_modes=False, binning='log', breakpoint=0.1, window=None, **kwargs):
    return 0

def power_spectrum_2d(input_array, kbins=10, binning='log', box_dims=244 / 0.7, return_modes=False, nu_axis=2, window=None, **kwargs):
    if not hasattr(kbins, '__iter__'):
        kbins = [kbins, kbins]
    elif not isinstance(kbins[0], (int, np.integer)):
        binning = None
    if binning is None:
        pass
    elif binning == 'log':
        pass
    elif binning == 'linear':
        pass
    elif binning == 'mixed':
        pass
    else:
        raise Exception()
    return 0

def cross_power_spectrum_1d(input_array1_nd, input_array2_nd, kbins=100, box_dims=None, return_n_modes=False, binning='log', breakpoint=0.1, **kwargs):
    return 0

def power_spectrum_mu(input_array, los_axis=0, mubins=20, kbins=10, box_dims=None, weights=None, exclude_zero_modes=True, return_n_modes=False, absolute_mus=True, **kwargs):
    return 0

def cross_power_spectrum_mu(input_array1, input_array2, los_axis=0, mubins=20, kbins=10, box_dims=None, weights=None, exclude_zero_modes=True, return_n_modes=False, absolute_mus=True, **kwargs):
    return 0

def mu_binning(powerspectrum, los_axis=0, mubins=20, kbins=10, box_dims=None, weights=None, exclude_zero_modes=True, binning='log', absolute_mus=True):
    powerspectrum = powerspectrum.copy() if weights is None else powerspectrum * weights
    assert len(powerspectrum.shape) == 3
    return 0

def get_k(input_array, box_dims):
    return 0

def get_kbins(kbins, box_dims, k=None, array=None, binning='log'):
    assert k is not None or array is not None
    return 0

def _get_k(input_array, box_dims):
    return 0

def _get_mu(k_comp, k, los_axis, absolute_mus):
    if los_axis == 0:
        pass
    elif los_axis == 1:
        pass
    elif los_axis == 2:
        pass
    else:
        raise Exception()
    return 0

def _get_kbins(kbins, box_dims, k, binning='log', breakpoint=0.1, kmin=None, kmax=None):
    if isinstance(kbins, int):
        kmin = 2.0 * np.pi / min(box_dims) if kmin is None else kmin
        kmax = k.max() if kmax is None else kmax
        if binning == 'linear':
            kbins = np.linspace(kmin, kmax, kbins + 1)
        elif binning == 'log':
            kbins = 10 ** np.linspace(np.log10(kmin), np.log10(kmax), kbins + 1)
        elif binning != 'mixed':
            raise Exception()
    return 0

def _get_dims(box_dims, ashape):
    return 0

def dimensionless_ps(data, kbins=100, box_dims=None, binning='log', factor=10):
    return 0

def _get_nonzero_idx(ps_shape, los_axis):
    return 0

def anisotropy_ratio_r_mu(input_array, los_axis=0, mu_cut=0.5, mubins=20, kbins=10, box_dims=None, weights=None, exclude_zero_modes=True, return_n_modes=False, absolute_mus=True, **kwargs):
    return 0

"""Recorded guards of power_spect_fast.py: which arguments and states are refused."""
import numpy as np, gc
from scipy import interpolate, stats
from tqdm import tqdm
from . import cosmo, smoothing, const
from .scipy_func import numpy_product

def power_spect_nd(input_array, box_dims, verbose=True):
    return 0

def phase_spect_nd(input_array, box_dims, verbose=True):
    return 0

def _get_k(input_array, box_dims):
    return 0

def power_spect_1d(input_array, kbins=10, binning='log', box_dims=244 / 0.7, return_modes=False, kmin=None, kmax=None):
    if binning == 'log':
        pass
    elif binning == 'linear':
        pass
    elif binning == 'auto':
        pass
    else:
        raise Exception()
    return 0

def _in_bin(k, edges, i):
    return 0

def power_spect_2d(input_array, kbins=10, binning='log', box_dims=244 / 0.7, return_modes=False, nu_axis=2, window=None):
    if window is not None:
        from scipy.signal import windows
        if not isinstance(window, str):
            input_array = input_array * window
        elif window.lower() == 'blackmanharris':
            input_array = input_array * windows.blackmanharris(input_array.shape[-1])[None, None, :]
        elif window.lower() == 'tukey':
            input_array = input_array * windows.tukey(input_array.shape[-1])[None, None, :]
        else:
            raise Exception()
    if np.array(kbins).size == 1:
        kbins = [kbins, kbins]
    if not isinstance(kbins[0], int):
        binning = None
    [kx, ky, kz], k = _get_k(input_array, box_dims)
    kdict = {}
    kdict['0'], kdict['1'], kdict['2'] = (kx, ky, kz)
    kz = kdict[str(nu_axis)]
    kp = np.sqrt(kdict[str(np.setdiff1d([0, 1, 2], nu_axis)[0])] ** 2 + kdict[str(np.setdiff1d([0, 1, 2], nu_axis)[1])] ** 2)
    kz = np.abs(kz)
    if binning is None:
        kper = np.array(kbins[0])
        kpar = np.array(kbins[1])
        kbins = [len(kper) - 1, len(kpar) - 1]
    elif binning == 'log':
        kper = np.linspace(np.log10(np.abs(kp[kp != 0]).min()), np.log10(kp.max()), kbins[0] + 1)
        kpar = np.linspace(np.log10(np.abs(kz[kz != 0]).min()), np.log10(kz.max()), kbins[1] + 1)
        kp, kz = (np.log10(kp), np.log10(kz))
    elif binning == 'linear':
        kper = np.linspace(np.abs(kp[kp != 0]).min(), kp.max(), kbins[0] + 1)
        kpar = np.linspace(np.abs(kz[kz != 0]).min(), kz.max(), kbins[1] + 1)
    else:
        raise Exception()
    return 0

def dimensional_power(input_array, kbins=10, binning='log', box_dims=244 / 0.7, return_modes=False):
    return 0

def power_spect_mu(input_array, kbins=10, box_dims=244 / 0.7, return_modes=False, mubins=10, binning='log', nu_axis=2):
    return 0

def plot_2d_power(ps, xlabel='$k_\\perp$', ylabel='$k_\\parallel$', ps_label='$P(k_\\perp,k_\\parallel)$', fig=None, ax=None, plotting_scale={'x': 'log', 'y': 'log', 'z': 'log'}, draw_wedge={'z': 9.0, 'fov_deg': 90.0, 'ls': '--', 'color': 'k'}, **kwargs):
    return 0

def horizon_wedge_equation(z, fov_deg=90.0):
    return 0

"""Recorded guards of radio_telescope_noise.py: which arguments and states are refused."""
import numpy as np
import sys
from .radio_telescope_sensitivity import *
from .usefuls import *
from . import conv
from . import cosmo as cm
from . import smoothing as sm
from .power_spectrum import radial_average, _get_k, _get_dims
from .read_files import read_dictionary_data, write_dictionary_data
import scipy
from .scipy_func import *
from glob import glob
from time import time, sleep
import pickle
import astropy.units as u
from joblib import Parallel, delayed
from tqdm import tqdm

def signal_window(ncells, method, ndim=1, extra_param=30):
    return 0

def noise_coeval_power_spectrum_1d(ncells, z, depth_mhz, obs_time=1000, subarray_type='AA4', kbins=10, boxsize=None, binning='log', return_n_modes=False, total_int_time=6.0, int_time=10.0, declination=-30.0, uv_map=None, N_ant=None, uv_weighting='natural', T_sys=None, sefd_data=None, nu_data=None, D_station=40.0, ep_aperture=None, fft_wrap=False, verbose=True):
    if uv_weighting.lower() in ['nat', 'natural', 'natural_weighting']:
        pass
    elif uv_weighting.lower() in ['uni', 'uniform', 'uniform_weighting']:
        pass
    else:
        raise Exception()
    return 0

def get_uv_map_lightcone(ncells, zs, subarray_type='AA4', total_int_time=6.0, int_time=10.0, boxsize=None, declination=-30.0, save_uvmap=None, n_jobs=4, verbose=True, checkpoint=16):
    antxyz, N_ant = subarray_type_to_antxyz(subarray_type, verbose=verbose)
    if boxsize is None:
        boxsize = conv.LB
    if isinstance(subarray_type, str) and subarray_type.upper() == 'AA*':
        subarray_type = 'AAstar'
    params = {'ncells': ncells, 'boxsize': boxsize, 'total_int_time': total_int_time, 'int_time': int_time, 'declination': declination, 'subarray_type': subarray_type, 'N_ant': N_ant}
    if save_uvmap and os.path.exists(save_uvmap):
        uvs = read_dictionary_data(save_uvmap)
        mismatches = []
        for key, current_val in params.items():
            cached_val = uvs.get(key)
            if cached_val is not None and (not np.array_equal(cached_val, current_val)):
                mismatch_msg = f"  - '{key}': Cached value is '{cached_val}', but current call requested '{current_val}'."
                mismatches.append(mismatch_msg)
        if mismatches:
            raise Exception()
    return 0

def noise_map(ncells, z, depth_mhz, obs_time=1000, subarray_type='AA4', boxsize=None, total_int_time=6.0, int_time=10.0, declination=-30.0, uv_map=None, N_ant=None, uv_weighting='natural', T_sys=None, sefd_data=None, nu_data=None, D_station=40.0, ep_aperture=None, fft_wrap=False, verbose=True, suppress_sharp_features_uv_map=False):
    return 0

def _suppress_sharp_features_uv_map(uv_map, boxsize=None, method='gaussian', filter_param=5.0):
    if method is True:
        method = 'gaussian'
    if method.lower() == 'gaussian':
        pass
    elif method.lower() in ['binned', 'bin']:
        assert boxsize is not None
    else:
        raise Exception()
    return 0

def apply_uv_response_noise(noise, uv_map, boxsize=None, uv_weighting='natural', uv_map_min=0.01, suppress_sharp_features_uv_map=False):
    if uv_weighting.lower() in ['nat', 'natural', 'natural_weighting']:
        pass
    elif uv_weighting.lower() in ['uni', 'uniform', 'uniform_weighting']:
        pass
    else:
        raise Exception()
    return 0

def apply_uv_response_noise_briggs(noise, uv_map, robust=2.0, epsilon=1e-06):
    return 0

def ifft2_wrap(nn1):
    assert nn1.ndim == 2
    return 0

def apply_uv_response_on_image(array, uv_map):
    assert array.shape == uv_map.shape
    return 0

def max_baseline_to_max_k(redshift, max_baseline):
    return 0

def get_uv_map(ncells, z, subarray_type='AA4', total_int_time=6.0, int_time=10.0, boxsize=None, declination=-30.0, include_mirror_baselines=True, verbose=True, max_baseline=None):
    return 0

def make_uv_map_lightcone(ncells, zs, subarray_type='AA4', total_int_time=6.0, int_time=10.0, boxsize=None, declination=-30.0, verbose=True):
    return 0

def apply_uv_response_on_coeval(array, z, subarray_type='AA4', boxsize=None, total_int_time=6.0, int_time=10.0, declination=-30.0, uv_map=None, N_ant=None):
    return 0

def noise_cube_coeval(ncells, z, depth_mhz=None, obs_time=1000, subarray_type='AA4', boxsize=None, total_int_time=6.0, int_time=10.0, declination=-30.0, uv_map=None, N_ant=None, uv_weighting='natural', verbose=True, fft_wrap=False, T_sys=None, sefd_data=None, nu_data=None, D_station=40.0, ep_aperture=None, suppress_sharp_features_uv_map=False):
    return 0

def noise_cube_lightcone(ncells, z, obs_time=1000, subarray_type='AA4', boxsize=None, save_uvmap=None, total_int_time=6.0, int_time=10.0, declination=-30.0, N_ant=None, uv_weighting='natural', fft_wrap=False, verbose=True, n_jobs=4, checkpoint=64, T_sys=None, sefd_data=None, nu_data=None, D_station=40.0, ep_aperture=None, suppress_sharp_features_uv_map=False):
    return 0

def noise_lightcone(ncells, zs, obs_time=1000, subarray_type='AA4', boxsize=None, save_uvmap=None, total_int_time=6.0, int_time=10.0, declination=-30.0, uv_weighting='natural', fft_wrap=False, verbose=True, n_jobs=4, checkpoint=16, T_sys=None, sefd_data=None, nu_data=None, D_station=40.0, ep_aperture=None, suppress_sharp_features_uv_map=False, N_ant=None):
    return 0

def gauss_kernel_3d(size, sigma=1.0, fwhm=None):
    return 0

def smooth_gauss_3d(array, fwhm):
    return 0

"""Recorded guards of smoothing.py: which arguments and states are refused."""
import numpy as np
from . import const, conv
from . import cosmo as cm
from .radio_telescope_noise import get_uv_map
import scipy.ndimage as ndimage
import scipy.interpolate
from scipy import signal
from scipy.fftpack import fft, ifft, fftn, ifftn
from numpy.fft import rfftn, irfftn
from math import ceil, floor
from numpy import array, asarray, roll
from .helper_functions import find_idx
from .fft_functions import fftconvolve
from tqdm import tqdm
import astropy.units as u

def gauss_kernel(size, sigma=1.0, fwhm=None):
    return 0

def gauss_kernel_3d(size, sigma=1.0, fwhm=None):
    return 0

def tophat_kernel(size, tophat_width):
    return 0

def tophat_kernel_3d(size, tophat_width, shape='cube'):
    if shape == 'cube':
        pass
    elif shape == 'sphere':
        pass
    else:
        raise Exception()
    return 0

def lanczos_kernel(size, kernel_width):
    return 0

def smooth_gauss(input_array, sigma=1.0, fwhm=None):
    return 0

def smooth_tophat(input_array, tophat_width):
    return 0

def smooth_lanczos(input_array, kernel_width):
    return 0

def smooth_with_kernel(input_array, kernel):
    assert len(input_array.shape) == len(kernel.shape)
    return 0

def get_beam_w(baseline, z):
    return 0

def interpolate3d(input_array, x, y, z, order=0):
    return 0

def interpolate2d(input_array, x, y, order=0):
    return 0

def smooth_lightcone(lightcone, z_array, box_size_mpc=False, max_baseline=2.0, ratio=1.0, verbose=True):
    return 0

def smooth_coeval(cube, z, box_size_mpc=False, max_baseline=2.0, ratio=1.0, nu_axis=2, verbose=True):
    return 0

def smooth_coeval_tophat(cube, width, nu_axis, verbose=True):
    return 0

def smooth_coeval_gauss(cube, fwhm, nu_axis):
    return 0

def smooth_lightcone_tophat(lightcone, redshifts, dz, verbose=True):
    return 0

def smooth_lightcone_gauss(lightcone, fwhm, nu_axis=2):
    assert lightcone.shape[nu_axis] == len(fwhm)
    return 0

def smooth_lightcone_uv_threshold(lightcone, uv_box, threshold=0.0):
    if not isinstance(threshold, (int, float)) or threshold < 0.0:
        raise Exception()
    return 0

def remove_baselines_from_uvmap(uv_map, z, max_baseline=2, box_size_mpc=False):
    return 0

def convolve_uvmap(array, z=None, uv_map=None, max_baseline=None, box_size_mpc=False, filename=None, total_int_time=6.0, int_time=10.0, declination=-30.0, verbose=True):
    return 0

def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2.0, ratio=1.0, nu_axis=2, verbose=True, filename=None, total_int_time=6.0, int_time=10.0, declination=-30.0, uv_map=None):
    return 0

def smooth_line(y, window=3, kind='tophat'):
    if isinstance(window, int):
        if kind.lower() in ['tophat', 'boxcar']:
            window = np.ones(window) / window
        elif kind.lower() in ['normal', 'gaussian']:
            x = np.linspace(-3 * window, 3 * window, 6 * window + 1)
            window = np.exp(-x ** 2 / (2 * window ** 2))
            window /= np.sum(window)
        elif kind.lower() == 'triangular':
            window = np.arange(1, window + 1)
            window = np.concatenate([window, window[::-1][1:]])
            window = window / window.sum()
        elif kind.lower() == 'hamming':
            window = np.hamming(window)
            window = window / window.sum()
        elif kind.lower() == 'hanning':
            window = np.hanning(window)
            window = window / window.sum()
        else:
            raise Exception()
    elif isinstance(window, (list, np.ndarray)):
        window = np.array(window)
        window = window / np.sum(window)
    else:
        raise Exception()
    return 0

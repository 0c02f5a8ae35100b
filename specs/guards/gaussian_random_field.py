"""Recorded guards of gaussian_random_field.py: which arguments and states are refused."""
import numpy as np
from scipy import fftpack
from .power_spectrum import _get_dims, _get_k, power_spectrum_1d
from .scipy_func import *

def make_gaussian_random_field(dims, box_dims, power_spectrum, random_seed=None):
    assert len(dims) == 2 or len(dims) == 3
    map_ft_real = np.random.normal(loc=0.0, scale=1.0, size=dims)
    box_dims = _get_dims(box_dims, map_ft_real.shape)
    assert len(box_dims) == len(dims)
    return 0

def make_gaussian_random_field_like_field(input_field, box_dims, kbins=10, random_seed=None):
    return 0

def _get_ps_func_for_field(input_field, box_dims, kbins=10):
    return 0

def fourier_phase_shuffled(input_array, **kwargs):
    return 0

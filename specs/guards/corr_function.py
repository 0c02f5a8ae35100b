"""Recorded guards of corr_function.py: which arguments and states are refused."""
import numpy as np
from scipy.interpolate import splrep, splev
from scipy.spatial import cKDTree
from tqdm import tqdm
from .power_spectrum import power_spectrum_1d, cross_power_spectrum_1d
from . import conv
from .scipy_func import trapz

def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
    if binning not in ['log', 'linear']:
        raise Exception()
    return 0

def correlation_function(input_array_nd, rbins=10, kbins=10, box_dims=None, binning='log', k_binning='log'):
    return 0

def cross_correlation_function(input_array1_nd, input_array2_nd, rbins=10, kbins=100, box_dims=None, binning='log', k_binning='log'):
    return 0

def landy_szalay_estimator(data, randoms=None, rbins=10, box_dims=None, binning='log', **kwargs):
    if binning not in ['log', 'linear']:
        raise Exception()
    return 0

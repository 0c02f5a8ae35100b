"""Recorded guards of bubble_stats.py: which arguments and states are refused."""
import numpy as np
from .Friends_of_Friends import FoF_search
from scipy import ndimage
import os, sys
import datetime, time
from . import mfp_np, spa_np, conv, morph
from .scipy_func import *
from tqdm import tqdm
from joblib import Parallel, delayed
from .usefuls import loading_msg

def fof(data, xth=0.5, connectivity=1):
    return 0

def spa(data, xth=0.95, boxsize=None, nscales=20, upper_lim=False, binning='log', verbose=True, use_fftconvolve=True):
    return 0

def mfp(data, xth=0.5, boxsize=None, iterations=10000000, verbose=True, upper_lim=False, bins=None, r_min=None, r_max=None):
    dim = len(data.shape)
    if upper_lim:
        data = -1.0 * data
        xth = -1.0 * xth
    check_box = (data >= xth).sum()
    if check_box == 0:
        data = np.full(data.shape, xth)
    if dim == 2:
        pass
    elif dim == 3:
        pass
    else:
        raise Exception()
    return 0

def averaged_mfp(data, xth=0.5, boxsize=None, iterations=10000000, rays_per_point=10, verbose=True, upper_lim=False, bins=None, r_min=None, r_max=None, n_jobs=-1):
    dim = len(data.shape)
    if upper_lim:
        data = -1.0 * data
        xth = -1.0 * xth
    check_box = (data >= xth).sum()
    if check_box == 0:
        data = np.full(data.shape, xth)
    if dim == 3:
        pass
    else:
        raise Exception()
    return 0

def mfp_from_point(data, point, xth=0.5, boxsize=None, iterations=10000000, verbose=True, upper_lim=False, bins=None, r_min=None, r_max=None):
    dim = len(data.shape)
    if upper_lim:
        data = -1.0 * data
        xth = -1.0 * xth
    check_box = (data >= xth).sum()
    if check_box == 0:
        data = np.full(data.shape, xth)
    if dim == 2:
        pass
    elif dim == 3:
        pass
    else:
        raise Exception()
    return 0

def rebin_bsd(rr, pp, bins=10, r_min=None, r_max=None):
    return 0

def dist_from_volumes(sizes, resolution=1.0, bins=100, null_factor=None):
    return 0

def get_distribution(array, resolution=1.0, bins=100, sizes=False):
    return 0

def plot_fof_sizes(sizes, bins=100, boxsize=None, normalize='box'):
    if normalize == 'ionized':
        pass
    elif normalize == 'box':
        pass
    else:
        raise Exception()
    return 0

def disk_structure(n):
    return 0

def granulometry_CDF(data, sizes=None, verbose=True, n_jobs=1):
    return 0

def granulometry_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, sampling=2, log_bins=None, n_jobs=1):
    return 0

def _granulometry(data, n_jobs=1, verbose=True):
    return 0
from skimage.segmentation import watershed
from skimage.feature import peak_local_max
from skimage.morphology import reconstruction

def h_transform(image, h, verbose=True):
    return 0

def _watershed(image, h=None, threshold_rel=None, footprint=None, verbose=True):
    return 0

def watershed_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, h=None, n_jobs=1):
    return 0

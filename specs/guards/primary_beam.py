"""Recorded guards of primary_beam.py: which arguments and states are refused."""
import numpy as np
from tqdm import tqdm
from scipy.special import j1
from astropy import units
from . import cosmo as cm
from . import conv

def primary_beam(array, z, nu_axis=2, beam_func='Gaussian', boxsize=None, D_station=40.0, l_null=None, verbose=True):
    assert array.ndim > 1
    return 0

def primary_beam_null(z, D_station=40.0):
    return 0

def circular_beam(ncells, z, D_station=40.0, beam_func='Gaussian', boxsize=None, l_null=None):
    if beam_func.lower() == 'step':
        pass
    elif beam_func.lower() == 'gaussian':
        pass
    elif beam_func.lower() == 'bessel':
        pass
    elif beam_func.lower() == 'sigmoid':
        pass
    else:
        raise Exception()
    return 0

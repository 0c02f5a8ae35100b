"""Recorded guards of foreground_model.py: which arguments and states are refused."""
import numpy as np
from .scipy_func import *
from .radio_telescope_sensitivity import jansky_2_kelvin, from_antenna_config
from . import cosmo as cm
from . import const
from . import conv

def galactic_synch_fg(z, ncells, boxsize, rseed=False):
    return 0

def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
    return 0

def diabolo_filter(z, ncells=None, array=None, boxsize=None, mu=0.5, funct='step', small_base=40):
    assert funct in ['step', 'sigmoid']
    assert ncells or array is not None
    return 0

def barrel_filter(z, ncells=None, array=None, boxsize=None, k_par_min=None, small_base=40):
    assert ncells or array is not None
    return 0

def remove_wedge_image(dt, z, mu=0.5, funct='step', boxsize=None, filt=None):
    return 0

def rolling_wedge_removal_lightcone(lightcone, redshifts, cell_size=None, chunk_length=None, OMm=None, buffer_threshold=1e-10):
    return 0

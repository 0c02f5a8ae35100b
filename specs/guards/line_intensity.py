"""Recorded guards of line_intensity.py: which arguments and states are refused."""
import numpy as np
from glob import glob
import astropy
from astropy import constants, units
from astropy import cosmology
from .nbody_file import halo_list_to_grid

def M_HI_on_grid(z, mass, pos_xyz, box_dim, n_grid, cosmo=None, recipe='Padmanabhan2017', **kwargs):
    assert recipe.lower() in ['padmanabhan2017']
    return 0

def L_CII_on_grid(z, mass, pos_xyz, box_dim, n_grid, SFR=None, cosmo=None, recipe='Silva2015m1', **kwargs):
    assert recipe.lower() in ['silva2015m1', 'silva2015m2', 'silva2015m3', 'silva2015m4']
    return 0

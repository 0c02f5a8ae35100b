"""Recorded guards of temperature.py: which arguments and states are refused."""
import numpy as np
from . import const, conv
from . import cosmo
from .helper_functions import print_msg, read_cbin, get_data_and_type, determine_redshift_from_filename
from astropy import constants, units
from astropy import cosmology

def calc_dt_halo(mhalo, box_dim, z, Y_p=0.249, cosmo=None):
    return 0

def calc_dt(xfrac, dens, z=-1):
    if z < 0:
        z = determine_redshift_from_filename(xfrac)
        if z < 0:
            z = determine_redshift_from_filename(dens)
        if z < 0:
            raise Exception()
    return 0

def calc_dt_full(xfrac, dens, temp, z=-1, correct=True):
    if z < 0:
        z = determine_redshift_from_filename(xfrac)
        if z < 0:
            z = determine_redshift_from_filename(dens)
        if z < 0:
            z = determine_redshift_from_filename(temp)
        if z < 0:
            raise Exception()
    return 0

def calc_dt_lightcone(xfrac, dens, lowest_z, los_axis=2):
    return 0

def calc_dt_full_lightcone(xfrac, temp, dens, lowest_z, los_axis=2, correct=True):
    return 0

def mean_dt(z):
    return 0

def _along_los(z, los_axis):
    return 0

def _dt(rho, xi, z):
    return 0

def _dt_full(rho, xi, Ts, z, correct):
    return 0

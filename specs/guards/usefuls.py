"""Recorded guards of usefuls.py: which arguments and states are refused."""
import numpy as np
import sys
from . import conv, const, helper_functions, lightcone
from . import temperature as tm
from . import density_file, vel_file, xfrac_file
import glob

def loading_verbose(string):
    return 0

def loading_msg(msg):
    return 0

def Mgrid_2_Msolar(M):
    return 0

def Msolar_2_Mgrid(M):
    return 0

def _file_at(files, redshifts, z):
    return 0

def get_zs_list(xfrac_dir, file_type='/xfrac3d_*.bin'):
    return 0

def coeval_21cm(xfrac_dir, dens_dir, z, interpolation='linear', mean_subtract=False):
    return 0

def coeval_xfrac(xfrac_dir, z, interpolation='linear'):
    if not interpolation in ['linear']:
        raise Exception()
    return 0

def coeval_dens(dens_dir, z, interpolation='linear'):
    if not interpolation in ['linear']:
        raise Exception()
    return 0

def coeval_overdens(dens_dir, z, interpolation='linear'):
    return 0

def coeval_vel(dens_dir, vel_dir, z, interpolation='linear'):
    if not interpolation in ['linear']:
        raise Exception()
    return 0

"""Recorded guards of lyman_alpha_coupling.py: which arguments and states are refused."""
import numpy as np
from scipy.interpolate import interp1d
from . import cosmo as cm
from .usefuls import *
import os, glob
import time, timeit
lam_lya = 1215.0
lam_HII = 912.0
f_esc_lya = 1
dlam = 1
h_planck = 6.626e-34
c_light = 300000000.0
nu_lya = c_light / 1.21567e-07
E_lya = 10.19884
m2parsec = 3.24e-17
yr2sec = 31540000.0

def _read_halofile(filename, z=-1):
    return 0

def Lya_coupling_coeff(ncells, boxsize, sourcelist, z=-1, SED=None, lum=None, lam=None):
    assert SED is not None or (lum is not None and lam is not None)
    return 0

def one_source(z, ncells, boxsize, source_pos, mass, sed_func):
    return 0

def Lya_coupling_coeff_MPI(ncells, boxsize, sourcelist_loc, z=-1, SED_loc=None, n_jobs=5, lum=None, lam=None):
    assert type(sourcelist_loc) == str
    assert SED_loc is not None or (lum is not None and lam is not None)
    return 0

def Lya_coupling_coeff_(ncells, boxsize, sourcelist, z=-1, SED=None, lum=None, lam=None):
    assert SED is not None or (lum is not None and lam is not None)
    return 0

def one_source_(xx, yy, zz, z, ncells, boxsize, source_pos, mass, eng_func, zs_HII):
    return 0

def Lya_coupling_coeff_useprofile(z, ncells, boxsize, source_dir, source_file='*-coarsest_sources_used_wfgamma.dat', SED=None, lum=None, lam=None, tstep=11.5):
    assert SED is not None or (lum is not None and lam is not None)
    return 0

def _get_xc(sources, engs, ncells, mass_axis=3, time_taken=False):
    return 0

def _get_profile(z, lam, lum, boxsize, ncells, r_min, r_max):
    return 0

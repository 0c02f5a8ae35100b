"""Recorded guards of conv.py: which arguments and states are refused."""
from . import const
import numpy as np
from . import helper_functions as hf
boxsize = 244.0
LB = boxsize / const.h
nbox_fine = 8000
M_box = const.rho_matter * (LB * const.Mpc) ** 3
M_grid = M_box / float(nbox_fine) ** 3
lscale = LB / float(nbox_fine) * const.Mpc
tscale = 2.0 / (3.0 * np.sqrt(const.Omega0) * const.H0 / const.Mpc * 100000.0)
velconvert = lambda z: lscale / tscale * (1.0 + z) / 100000.0

def _update_derived():
    return 0

def set_sim_constants(boxsize_cMpc):
    global boxsize, nbox_fine
    if hf.flt_comp(boxsize_cMpc, 425.0):
        pass
    elif hf.flt_comp(boxsize_cMpc, 114.0):
        pass
    elif hf.flt_comp(boxsize_cMpc, 64.0):
        pass
    elif hf.flt_comp(boxsize_cMpc, 37.0):
        pass
    elif hf.flt_comp(boxsize_cMpc, 500.0):
        pass
    elif hf.flt_comp(boxsize_cMpc, 244.0):
        pass
    elif hf.flt_comp(boxsize_cMpc, 47.0):
        pass
    elif hf.flt_comp(boxsize_cMpc, 200.0):
        pass
    else:
        raise Exception()
    return 0

def gridpos_to_mpc(gridpos):
    return 0

def gridvel_to_kms(gridvel, z):
    return 0

def gridmass_to_msol(grid_mass):
    return 0

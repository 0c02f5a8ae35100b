"""Reference definitions: simulation grid units (P29)."""
from . import const
import numpy as np
from . import helper_functions as hf

boxsize = 244.0
LB = boxsize/const.h
nbox_fine = 8000
M_box = const.rho_matter*(LB*const.Mpc)**3
M_grid = M_box/(float(nbox_fine)**3)
lscale = LB/float(nbox_fine)*const.Mpc
tscale = 2.0/(3.0*np.sqrt(const.Omega0)*const.H0/const.Mpc*1.e5)


def velconvert(z):
    return lscale/tscale*(1.0 + z)/1.e5


def _update_derived():
    global LB, M_box, M_grid, lscale, tscale
    LB = boxsize/const.h
    M_box = const.rho_matter*(LB*const.Mpc)**3
    M_grid = M_box/(float(nbox_fine)**3)
    lscale = LB/float(nbox_fine)*const.Mpc
    tscale = 2.0/(3.0*np.sqrt(const.Omega0)*const.H0/const.Mpc*1.e5)


def set_sim_constants(boxsize_cMpc):
    global boxsize, nbox_fine
    if abs(boxsize_cMpc - 425.) < 0.0001:
        nbox_fine = 10976
    elif abs(boxsize_cMpc - 114.) < 0.0001:
        nbox_fine = 6144
    elif abs(boxsize_cMpc - 64.) < 0.0001:
        nbox_fine = 3456
    elif abs(boxsize_cMpc - 37.) < 0.0001:
        nbox_fine = 2048
    elif abs(boxsize_cMpc - 500.) < 0.0001:
        nbox_fine = 13824
    elif abs(boxsize_cMpc - 244.) < 0.0001:
        nbox_fine = 8000
    elif abs(boxsize_cMpc - 47.) < 0.0001:
        nbox_fine = 3456
    elif abs(boxsize_cMpc - 200.) < 0.0001:
        nbox_fine = 3456
    else:
        raise Exception(boxsize_cMpc)
    boxsize = boxsize_cMpc
    _update_derived()


def gridpos_to_mpc(gridpos):
    return gridpos*lscale/const.Mpc


def gridvel_to_kms(gridvel, z):
    return gridvel*velconvert(z)


def gridmass_to_msol(grid_mass):
    return np.log10(grid_mass*M_grid*const.solar_masses_per_gram)

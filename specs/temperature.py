"""Reference definitions: differential brightness temperature (P15, P13).

dT = mean_dt(z) (1 - x) rho/rho_mean, and with the spin temperature times (1 - Tcmb/Ts); mean_dt(z) = meandt/h (1+z)^2/E(z).
"""
import numpy as np
from . import const, conv
from . import cosmo
from .helper_functions import read_cbin, get_data_and_type, determine_redshift_from_filename
from astropy import constants, units
from astropy import cosmology


def mean_dt(z):
    E = np.sqrt(const.Omega0*(1.0 + z)**3 + const.lam + (1.0 - const.Omega0 - const.lam)*(1.0 + z)**2)
    return const.meandt/const.h*(1.0 + z)**2/E


def _dt(rho, xi, z):
    mean = const.rho_crit_0*const.OmegaB if rho.min() >= 0 else 1
    return mean_dt(z)*(1.0 - xi)*rho/mean


def _dt_full(rho, xi, Ts, z, correct):
    mean = const.rho_crit_0*const.OmegaB
    Tcmb = const.Tcmb0*(1 + z)
    if correct:
        T_min = const.Tcmb0*(1 + 200)*(1 + z)**2/(1 + 200)**2
        T = (Ts - xi*2.0e4)/np.where(xi < 1, 1. - xi, 1.)
        T = np.where(T < T_min, T_min, T)
    else:
        T = Ts
    return ((T - Tcmb)/T)*mean_dt(z)*(1.0 - xi)*rho/mean


def calc_dt_halo(mhalo, box_dim, z, Y_p=0.249, cosmo=None):
    if cosmo is None:
        cosmo = cosmology.Planck18
    if isinstance(mhalo, units.quantity.Quantity):
        mhalo = mhalo.to('Msun')
    else:
        mhalo = mhalo*units.Msun
    if not isinstance(box_dim, units.quantity.Quantity):
        box_dim = box_dim*units.Mpc
    mu = 1/(1 - Y_p)
    cell = (box_dim/mhalo.shape[0])**3
    n = (mhalo/cell/mu/constants.m_p).to('1/cm^3')
    mean = (cosmo.Ob0*cosmo.critical_density0/mu/constants.m_p).to('1/cm^3')
    return mean_dt(z)*(n/mean).to('')


def calc_dt(xfrac, dens, z=-1):
    xi = get_data_and_type(xfrac)[0].astype('float64')
    rho = get_data_and_type(dens)[0].astype('float64')
    if z < 0:
        z = determine_redshift_from_filename(xfrac)
        if z < 0:
            z = determine_redshift_from_filename(dens)
        if z < 0:
            raise Exception('no redshift')
    return _dt(rho, xi, z)


def calc_dt_full(xfrac, dens, temp, z=-1, correct=True):
    xi = get_data_and_type(xfrac)[0].astype('float64')
    Ts = get_data_and_type(temp)[0].astype('float64')
    rho = get_data_and_type(dens)[0].astype('float64')
    if z < 0:
        z = determine_redshift_from_filename(xfrac)
        if z < 0:
            z = determine_redshift_from_filename(dens)
        if z < 0:
            z = determine_redshift_from_filename(temp)
        if z < 0:
            raise Exception('no redshift')
    return _dt_full(rho, xi, Ts, z, correct)


def _z_along(n, cell, lowest_z, los_axis):
    z = cosmo.cdist_to_z(np.arange(n)*cell + cosmo.z_to_cdist(lowest_z))
    shape = [1, 1, 1]
    shape[los_axis] = -1
    return np.reshape(z, shape)


def calc_dt_lightcone(xfrac, dens, lowest_z, los_axis=2):
    if isinstance(xfrac, str):
        xfrac = read_cbin(xfrac)
    if isinstance(dens, str):
        dens = read_cbin(dens)
    dens = dens.astype('float64')
    z = _z_along(xfrac.shape[los_axis], conv.LB/xfrac.shape[(los_axis + 1) % 3], lowest_z, los_axis)
    return _dt(dens, xfrac, z)


def calc_dt_full_lightcone(xfrac, temp, dens, lowest_z, los_axis=2, correct=True):
    if isinstance(xfrac, str):
        xfrac = read_cbin(xfrac)
    if isinstance(temp, str):
        temp = read_cbin(temp)
    if isinstance(dens, str):
        dens = read_cbin(dens)
    dens = dens.astype('float64')
    z = _z_along(xfrac.shape[los_axis], conv.LB/xfrac.shape[(los_axis + 1) % 3], lowest_z, los_axis)
    return _dt_full(dens, xfrac, temp, z, correct)

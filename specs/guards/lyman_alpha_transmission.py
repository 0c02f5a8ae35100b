"""Recorded guards of lyman_alpha_transmission.py: which arguments and states are refused."""
import numpy as np
from glob import glob
from tqdm import tqdm
from scipy import integrate
from scipy.special import wofz
import astropy
from astropy import constants, units
from astropy.cosmology import Planck18

def approximation_voigt_faddeeva(x, a):
    return 0

def direct_voigt_profile(x, a):
    return 0

def lyA_scattering_cross_section(nu, Tk):
    return 0

def tau_nu_lyA_FGPA(z, xHI, dn, f_alpha=0.416, lambda_alpha=1216.0 * units.Angstrom, k_res=1.0, X_H=0.76, cosmo=None):
    return 0

def tau_nu_lyA(z, xHI, Tk, dr, nu=2460000000000000.0 * units.Hz, X_H=0.76, cosmo=None):
    return 0

def tau_nu_lyA_los(z, xHI, dn, los_len=30 * units.Mpc, box_len=None, los_axis=2, method='FGPA', X_H=0.76, cosmo=None, **kwargs):
    if method.lower() == 'smith2015':
        pass
    elif method.lower() == 'fgpa':
        pass
    else:
        raise Exception()
    return 0

"""Reference definitions for primary_beam.py."""
import numpy as np
from scipy.special import j1
from astropy import units
from . import cosmo as cm
from . import conv


def primary_beam(array, z, nu_axis=2, beam_func='Gaussian', boxsize=None, D_station=40., l_null=None, verbose=True):
    assert array.ndim > 1
    L = conv.LB if boxsize is None else boxsize
    if array.ndim == 2:
        return array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=L, l_null=l_null)
    a = array if nu_axis == 2 else np.swapaxes(array, nu_axis, 2)
    zs = z*np.ones(a.shape[2]) if np.array(z).size == 1 else z
    beam = np.zeros(a.shape)
    for i in range(zs.size):
        beam[:, :, i] = circular_beam(a.shape[0], zs[i], D_station=D_station, beam_func=beam_func, boxsize=L, l_null=l_null)
    out = a*beam
    return out if nu_axis == 2 else np.swapaxes(out, 2, nu_axis)


def primary_beam_null(z, D_station=40.):
    D = D_station.to('m').value if isinstance(D_station, units.Quantity) else D_station
    return 1.22*cm.nu_to_wavel(cm.z_to_nu(z))/D*cm.z_to_cdist(z)


def circular_beam(ncells, z, D_station=40., beam_func='Gaussian', boxsize=None, l_null=None):
    L = conv.LB if boxsize is None else boxsize
    null = primary_beam_null(z, D_station=D_station) if l_null is None else l_null
    x, y = np.mgrid[-ncells/2:ncells/2, -ncells/2:ncells/2]*L/ncells
    r = np.sqrt(x**2 + y**2)
    how = beam_func.lower()
    if how == 'step':
        beam = np.zeros_like(r)
        beam[r <= null/2] = 1
    elif how == 'gaussian':
        s = null/1.186/2.355
        beam = np.exp(-r**2/(2*s**2))
    elif how == 'bessel':
        arg = 3.8317/null*r
        mid = np.where(r == 0)
        arg[mid] = 1e-9
        beam = (2*j1(arg)/arg)**2
        beam[mid] = 1.0
    elif how == 'sigmoid':
        beam = 1 - 1/(1 + np.exp(0.5*(null/2) - 0.5*r**2**0.5))
    else:
        raise ValueError
    return beam/beam.max()

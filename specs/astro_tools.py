"""Reference definitions: magnitudes, fluxes, fields of view (P14)."""
import numpy as np
from astropy import units
from astropy.cosmology import Planck18


def FoV_cMpc2(FoV, redshift, cosmo=None):
    if cosmo is None:
        cosmo = Planck18
    if isinstance(FoV, (int, float)):
        FoV = FoV*units.deg**2
    return FoV.to('rad2').value*cosmo.comoving_distance(redshift)**2


def mag_to_flux(mag):
    if isinstance(mag, (int, float)):
        mag = mag*units.mag
    return 10**(-(mag.to('mag').value + 48.60)/2.5)*units.erg/units.s/units.cm**2/units.Hz


def Muv_to_muv(Muv, z, cosmo=None):
    if cosmo is None:
        cosmo = Planck18
    if isinstance(Muv, (int, float)):
        Muv = Muv*units.mag
    return Muv + cosmo.distmod(z) - 2.5*np.log10(1 + z)*units.mag


def muv_to_Muv(muv, z, cosmo=None):
    if cosmo is None:
        cosmo = Planck18
    if isinstance(muv, (int, float)):
        muv = muv*units.mag
    return muv - cosmo.distmod(z) + 2.5*np.log10(1 + z)*units.mag


def Muv_to_L1500(M_AB):
    if isinstance(M_AB, (int, float)):
        M_AB = M_AB*units.mag
    return 1e7*10.**((34.1 - M_AB.to('mag').value)/2.5)*units.erg/units.s/units.Hz

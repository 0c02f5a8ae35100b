"""Recorded guards of nbody_tools.py: which arguments and states are refused."""
import numpy as np
from astropy import cosmology
from astropy import units

def _set_cosmo(cosmo):
    if isinstance(cosmo, str):
        cosmo_dict = {'PLANCK13': cosmology.Planck13, 'PLANCK15': cosmology.Planck15, 'PLANCK18': cosmology.Planck18, 'WMAP1': cosmology.WMAP1, 'WMAP3': cosmology.WMAP3, 'WMAP5': cosmology.WMAP5, 'WMAP7': cosmology.WMAP7, 'WMAP9': cosmology.WMAP9}
        if cosmo.upper() in cosmo_dict.keys():
            cosmo = cosmo_dict[cosmo.upper()]
        else:
            raise Exception()
    return 0

def ParticleMass_to_ParticleNumber(Lbox, particle_mass, cosmo='Planck18'):
    return 0

def halo_mass_to_particle_number(Lbox, halo_mass, particles_in_halo, cosmo='Planck18'):
    return 0

def particle_number_to_particle_mass(Lbox, particle_each_direction=None, particle_total=None, cosmo='Planck18'):
    return 0

"""Reference definitions: particle masses and numbers (P14, P12)."""
import numpy as np
from astropy import cosmology
from astropy import units


def _set_cosmo(cosmo):
    if isinstance(cosmo, str):
        known = {'PLANCK13': cosmology.Planck13, 'PLANCK15': cosmology.Planck15, 'PLANCK18': cosmology.Planck18,
                 'WMAP1': cosmology.WMAP1, 'WMAP3': cosmology.WMAP3, 'WMAP5': cosmology.WMAP5, 'WMAP7': cosmology.WMAP7, 'WMAP9': cosmology.WMAP9}
        if cosmo.upper() in known.keys():
            cosmo = known[cosmo.upper()]
        else:
            raise ValueError('cosmology')
    return cosmo


def ParticleMass_to_ParticleNumber(Lbox, particle_mass, cosmo='Planck18'):
    cosmo = _set_cosmo(cosmo)
    if not isinstance(particle_mass, units.Quantity):
        particle_mass = particle_mass*units.Msun
    if not isinstance(Lbox, units.Quantity):
        Lbox = Lbox*units.Mpc
    return (np.cbrt(cosmo.critical_density0*cosmo.Om0/particle_mass)*Lbox).to('').value


def halo_mass_to_particle_number(Lbox, halo_mass, particles_in_halo, cosmo='Planck18'):
    return ParticleMass_to_ParticleNumber(Lbox, halo_mass/particles_in_halo, cosmo=cosmo)


def particle_number_to_particle_mass(Lbox, particle_each_direction=None, particle_total=None, cosmo='Planck18'):
    n = particle_each_direction if particle_each_direction is not None else np.cbrt(particle_total)
    cosmo = _set_cosmo(cosmo)
    if not isinstance(Lbox, units.Quantity):
        Lbox = Lbox*units.Mpc
    return (cosmo.critical_density0*cosmo.Om0*(Lbox/n)**3).to('Msun')

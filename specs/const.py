"""Reference definitions: physical constants and cosmological parameters (P02, P16).

Every derived quantity is stated once, in _update_derived; a setter stores the new value and recomputes the derived ones.
"""
import numpy as np

abu_he = 0.074
abu_h = 1.0 - abu_he
c = 3.0e5
pc = 3.086e18
Mpc = 1e6*pc
G_grav = 6.6732e-8
c_light_cgs = 2.99792458e+10
c_light_SI = 2.99792458e+8
KB_SI = 1.380649e-23
janskytowatt = 1e-26
m_p = 1.672661e-24
abu_he_mass = 0.2486
abu_h_mass = 1.0 - abu_he_mass
mean_molecular = 1.0/(1.0 - abu_he_mass)
solar_masses_per_gram = 5.02785431e-34
kms = 1.e5
yr_in_sec = 3.154e7
h = 0.7
Omega0 = 0.27
OmegaB = 0.044
lam = 1.0 - Omega0
OmegaL = lam
n_s = 0.96
sigma_8 = 0.8
q0 = 0.5*Omega0 - lam
H0 = 100.0*h
H0cgs = H0*1e5/Mpc
rho_crit_0 = 3.0*H0cgs*H0cgs/(8.0*np.pi*G_grav)
rho_matter = rho_crit_0*Omega0
Tcmb0 = 2.725
A10 = 2.85e-15
nu0 = 1.42e3
Tstar = 0.068
lambda0 = c*1.0e5/(nu0*1.0e6)
num_h_0 = (1 - abu_he_mass)*OmegaB*rho_crit_0/m_p
meandt = 3.0*lambda0**3/(32.*np.pi)*A10*Tstar*num_h_0/(H0cgs/h)*1000.


def Hz(z):
    return H0*np.sqrt(Omega0*(1.0 + z)**3. + lam)


def _update_derived():
    global mean_molecular, q0, H0, H0cgs, rho_crit_0, rho_matter, num_h_0, meandt
    mean_molecular = 1.0/(1.0 - abu_he_mass)
    q0 = 0.5*Omega0 - lam
    H0 = 100.0*h
    H0cgs = H0*1e5/Mpc
    rho_crit_0 = 3.0*H0cgs*H0cgs/(8.0*np.pi*G_grav)
    rho_matter = rho_crit_0*Omega0
    num_h_0 = (1 - abu_he_mass)*OmegaB*rho_crit_0/m_p
    meandt = 3.0*lambda0**3/(32.*np.pi)*A10*Tstar*num_h_0/(H0cgs/h)*1000.
    from . import conv
    conv._update_derived()


def set_abundance_helium(value):
    global abu_he_mass, abu_h_mass
    abu_he_mass = value
    abu_h_mass = 1.0 - value
    _update_derived()


def set_hubble_h(value):
    global h
    h = value
    _update_derived()


def set_omega_matter(value):
    global Omega0, lam
    Omega0 = value
    lam = 1.0 - value
    _update_derived()


def set_omega_baryon(value):
    global OmegaB
    OmegaB = value
    _update_derived()


def set_omega_lambda(value):
    global lam, OmegaL
    lam = value
    OmegaL = value
    _update_derived()


def set_ns(value):
    global n_s
    n_s = value


def set_sigma_8(value):
    global sigma_8
    sigma_8 = value

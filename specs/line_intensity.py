"""Reference definitions for line_intensity.py: line luminosities of halos binned on a grid."""
import numpy as np
from astropy import units
from astropy import cosmology
from .nbody_file import halo_list_to_grid


def _with_units(mass, pos, box):
    m = mass.to('Msun') if isinstance(mass, units.quantity.Quantity) else mass*units.Msun
    p = pos.to('Mpc') if isinstance(pos, units.quantity.Quantity) else pos*units.Mpc
    b = box if isinstance(box, units.quantity.Quantity) else box*units.Mpc
    return m, p, b


def M_HI_on_grid(z, mass, pos_xyz, box_dim, n_grid, cosmo=None, recipe='Padmanabhan2017', **kwargs):
    assert recipe.lower() in ['padmanabhan2017']
    if cosmo is None:
        cosmo = cosmology.Planck18
    m, p, box = _with_units(mass, pos_xyz, box_dim)
    Yp = kwargs.get('Y_p', 0.249)
    alpha = kwargs.get('alpha', 0.9)
    v0 = kwargs.get('v_c0', 10**1.56*units.km/units.s)
    beta = kwargs.get('beta', -0.58)
    f = (1 - Yp)*cosmo.Ob0/cosmo.Om0
    v = 96.6*units.km/units.s*(178*cosmo.Om0/54.4)**(1/6)*((1 + z)/3.3)**0.5*(m/(1e11*units.Msun))**(1/3)
    hi = alpha*f*m*(m.to('Msun').value/cosmo.h/1e11)**beta*np.exp(-(v0/v)**3)
    grid, edges, num = halo_list_to_grid(hi.to('Msun').value, p, box, n_grid)
    return grid*units.Msun


def L_CII_on_grid(z, mass, pos_xyz, box_dim, n_grid, SFR=None, cosmo=None, recipe='Silva2015m1', **kwargs):
    how = recipe.lower()
    assert how in ['silva2015m1', 'silva2015m2', 'silva2015m3', 'silva2015m4']
    m, p, box = _with_units(mass, pos_xyz, box_dim)
    if SFR is None:
        SFR = 'silva2013'
    if isinstance(SFR, str):
        if SFR.lower() in ['silva2013', 'silva2015']:
            s0 = kwargs.get('SFR0', 2.25e-26*units.Msun/units.yr)
            a, b, d, e = kwargs.get('a_SFR', 2.59), kwargs.get('b_SFR', -0.62), kwargs.get('d_SFR', 0.40), kwargs.get('e_SFR', -2.25)
            c1, c2, c3 = kwargs.get('c1_SFR', 8e8*units.Msun), kwargs.get('c2_SFR', 7e9*units.Msun), kwargs.get('c3_SFR', 1e11*units.Msun)
            SFR = lambda M, z: s0*(1 + (z - 7)*7.5e-2)*M.to('Msun').value**a*(1 + M/c1)**b*(1 + M/c2)**d*(1 + M/c3)**e
    rate = SFR(m, z)
    if how == 'silva2015m1':
        sa, sb = 0.8475, 7.2203
    elif how == 'silva2015m2':
        sa, sb = 1.0000, 6.9647
    elif how == 'silva2015m3':
        sa, sb = 0.8727, 6.7250
    else:
        sa, sb = 0.9231, 6.5234
    A = kwargs.get('a_LCII', sa)
    B = kwargs.get('b_LCII', sb)
    L = 10**(A*np.log10(rate.to('Msun/yr').value) + B)
    grid, edges, num = halo_list_to_grid(L, p, box, n_grid)
    return grid*units.Lsun

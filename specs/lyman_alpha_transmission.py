"""Reference definitions for lyman_alpha_transmission.py."""
import numpy as np
from tqdm import tqdm
from scipy import integrate
from scipy.special import wofz
from astropy import constants, units
from astropy.cosmology import Planck18


def approximation_voigt_faddeeva(x, a):
    return wofz(x + 1j*a).real


def direct_voigt_profile(x, a):
    f = lambda y, x, a: np.exp(-y**2)/((y - x)**2 + a**2)

    def one(x, a):
        return integrate.quad(f, -np.inf, np.inf, args=(x, a))[0]
    return (a/np.pi)*np.vectorize(one)(x, a)


def lyA_scattering_cross_section(nu, Tk):
    if isinstance(Tk, units.quantity.Quantity):
        T4 = Tk.to('K').value/1e4
        T = Tk
    else:
        T4 = Tk/1e4
        T = Tk*units.K
    width = 2.46e15*np.sqrt((2*constants.k_B*T/constants.m_p/constants.c**2).to(''))
    f = nu.to('Hz').value if isinstance(nu, units.quantity.Quantity) else nu
    return 5.9e-14/np.sqrt(T4)*units.cm**2*approximation_voigt_faddeeva((f - 2.46e15)/width, 4.7e-4/np.sqrt(T4))


def tau_nu_lyA_FGPA(z, xHI, dn, f_alpha=0.416, lambda_alpha=1216.0*units.Angstrom, k_res=1.0, X_H=0.76, cosmo=None):
    if cosmo is None:
        cosmo = Planck18
    lam = lambda_alpha if isinstance(lambda_alpha, units.quantity.Quantity) else lambda_alpha*units.Angstrom
    d = dn/dn.mean() - 1 if dn.min() > 1 else dn
    n = (1 + d)*(X_H*cosmo.Ob0*cosmo.critical_density0/(constants.m_p + constants.m_e)).to('1/cm^3')
    nHI = xHI*n
    return 1.344e-7*k_res*(f_alpha/0.416)*(lam.to('m').value/1.216e-7)*(1/cosmo.H(z)).to('s').value*(1 + z)**3*nHI.to('1/cm^3').value


def tau_nu_lyA(z, xHI, Tk, dr, nu=2.46e15*units.Hz, X_H=0.76, cosmo=None):
    if cosmo is None:
        cosmo = Planck18
    d = dr if isinstance(dr, units.quantity.Quantity) else dr*units.Mpc
    if isinstance(Tk, units.quantity.Quantity):
        T4 = Tk.to('K').value/1e4
        T = Tk
    else:
        T4 = Tk/1e4
        T = Tk*units.K
    width = 2.46e15*np.sqrt((2*constants.k_B*T/constants.m_p/constants.c**2).to(''))
    f = nu.to('Hz').value if isinstance(nu, units.quantity.Quantity) else nu
    n = (X_H*cosmo.Ob0*cosmo.critical_density0/constants.m_p).to('1/cm^3')
    nHI = xHI*n*(1 + z)**3
    path = d/(1 + z)
    return 1.820e5*approximation_voigt_faddeeva((f - 2.46e15)/width, 4.7e-4/np.sqrt(T4))/np.sqrt(T4)*nHI.to('1/cm^3').value*path.to('pc').value


def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, method='FGPA', X_H=0.76, cosmo=None, **kwargs):
    if cosmo is None:
        cosmo = Planck18
    box = 200/cosmo.h*units.Mpc if box_len is None else box_len
    if los_axis != 2:
        xHI = np.swapaxes(xHI, los_axis, 2)
        dn = np.swapaxes(dn, los_axis, 2)
    w = int(np.round(los_len*(xHI.shape[0]/box))) if isinstance(los_len, units.quantity.Quantity) else los_len
    if dn.min() > 1:
        dn = dn/dn.mean() - 1
    how = method.lower()
    if how == 'smith2015':
        Tk = kwargs.get('Tk')
        if los_axis != 2 and np.ndim(Tk) > 0:
            Tk = np.swapaxes(Tk, los_axis, 2)
        tau = tau_nu_lyA(z, xHI, Tk, kwargs.get('dr'), nu=kwargs.get('nu', 2.46e15*units.Hz), X_H=X_H, cosmo=cosmo)
    elif how == 'fgpa':
        tau = tau_nu_lyA_FGPA(z, xHI, dn, f_alpha=kwargs.get('f_alpha', 0.416), lambda_alpha=kwargs.get('lambda_alpha', 1216.0*units.Angstrom), k_res=kwargs.get('k_res', 1.0), X_H=X_H, cosmo=cosmo)
    else:
        raise ValueError
    h = int(w/2)
    r = h if w % 2 == 0 else h + 1
    padded = np.exp(-np.concatenate((tau[:, :, tau.shape[2] - h:], tau, tau[:, :, :r]), axis=2))
    mean = np.array([padded[:, :, i:i + w].sum(axis=2).T/w for i in range(tau.shape[2])])
    out = np.swapaxes(-np.log(mean), 0, 2)
    return out if los_axis == 2 else np.swapaxes(out, los_axis, 2)

"""Reference definitions: distances, ages, frequencies (P16), inverse conversions (P14)."""
from . import const
import numpy as np
from scipy.integrate import quad
from scipy.interpolate import interp1d
from .helper_functions import outputify

precalc_table_z = np.hstack((np.arange(0, 1, 0.02), 10**np.linspace(0, 2, 200)))


def _ldist(z):
    term = (1 + z)**2*(1. + 2.*(const.q0 + const.lam)*z) - z*(2. + z)*const.lam
    if type(z) is np.ndarray:
        out = np.zeros(z.shape)
        good = np.where(term > 0.0)[0]
        out[good] = 1.0/np.sqrt(term[good])
        return out
    if term >= 0:
        return 1.0/np.sqrt(term)
    return 0.0


def luminosity_distance(z, k=0):
    if not (type(z) is np.ndarray):
        z = np.array([z])
    if const.lam == 0:
        root = np.sqrt(1 + 2*const.q0*z)
        return outputify((const.c*z/const.H0)*(1 + z*(1 - const.q0)/(root + 1 + const.q0*z)))
    n = len(z)
    d = np.zeros(n)
    for i in range(n):
        if z[i] <= 0:
            d[i] = 0.0
        else:
            d[i] = quad(_ldist, 0, z[i])[0]
    if k > 0:
        d = np.sinh(np.sqrt(k)*d)/np.sqrt(k)
    elif k < 0:
        d = np.sin(np.sqrt(-k)*d)/np.sqrt(-k)
    return outputify(const.c*(1 + z)*d/const.H0)


def z_to_cdist(z):
    z = np.atleast_1d(z)
    d = np.zeros(z.shape)
    for i in range(len(z)):
        d[i] = const.c/const.H0*quad(lambda x: 1./np.sqrt(const.Omega0*(1. + x)**3 + const.lam), 0, z[i])[0]
    return outputify(d)


def cdist_to_z(dist):
    dist = np.atleast_1d(dist)
    z = np.zeros(dist.shape)
    f = interp1d(z_to_cdist(precalc_table_z), precalc_table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
    for i in range(len(dist)):
        z[i] = f(dist[i])
    return outputify(z)


def z_to_age(z):
    z = np.atleast_1d(z)
    a = 1/(1 + z)
    t = np.zeros(z.shape)
    for i in range(len(a)):
        t[i] = 1/const.H0*quad(lambda x: 1./x/np.sqrt(const.Omega0*x**-3 + const.lam), 0, a[i])[0]
    return outputify(t)*(const.kms/const.Mpc)**-1/const.yr_in_sec/1e9


def angular_size(dl, z):
    return outputify(180./np.pi*3600.*dl*(1 + z)**2/(1000*luminosity_distance(z)))


def angular_size_comoving(cMpc, z):
    return angular_size(cMpc/(1 + z)*1000., z)/3600.


def deg_to_cdist(deg, z):
    return deg/angular_size_comoving(1., z)


def nu_to_z(nu21):
    return const.nu0/nu21 - 1


def z_to_nu(z):
    return const.nu0/(1. + z)


def nu_to_wavel(nu):
    return const.c*1.e3/(nu*1.e6)


def nu_to_cdist(nu21):
    return z_to_cdist(const.nu0/nu21 - 1)


def c_to_p(z_to_cdist, z):
    return z_to_cdist/(1 + z)


def p_to_c(pdist, z):
    return pdist*(1 + z)


def hubble_parameter(z):
    return const.H0*np.sqrt(const.Omega0*(1. + z)**3 + const.lam)


def _virial(z):
    Om = const.Omega0
    Ol = const.OmegaL
    E2 = Om*(1 + z)**3 + Ol + (1 - Om - Ol)*(1 + z)**2
    Omz = Om*(1 + z)**3/E2
    Delc = 18*np.pi**2 + 82*(Omz - 1) - 39*(Omz - 1)**2
    return 1.98e4*(0.6/0.6)*(Om*Delc/Omz/18/np.pi**2)**(1./3)*((1 + z)/10)


def Tvir_to_M(Tvir, z):
    return 1e8/const.h*(Tvir/_virial(z))**(3./2)


def M_to_Tvir(M, z):
    return _virial(z)*(M*const.h/1e8)**(2./3)

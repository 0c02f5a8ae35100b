"""Reference definition for power_spectrum_noise.py: equation 11 of Mellema et al. 2013."""
import numpy as np
from . import const
from . import cosmo as cm


def noise_error_ps(nu_c, k, t, **kwargs):
    Rmax = kwargs.get('Rmax', 1500.)
    Aeff = kwargs.get('Aeff', lambda nu: 526*(nu/150)**(-2))
    Nstat = kwargs.get('Nstat', 48)
    Tsys = kwargs.get('Tsys', lambda nu: (140 + 60*(nu/300)**(-2.55))*1000)
    B = kwargs.get('B', 10.)
    eps = kwargs.get('epsilon', 1)
    ell = kwargs.get('multipole', 0)
    A = Aeff(nu_c) if hasattr(Aeff, '__call__') else Aeff
    T = Tsys(nu_c) if hasattr(Tsys, '__call__') else Tsys
    seconds = t*3600
    core = np.pi*Rmax**2
    collect = Nstat*A
    D = cm.nu_to_cdist(nu_c)
    depth = np.abs(D - cm.nu_to_cdist(nu_c + B))
    beam = (const.c/nu_c*1e-3)**2/A
    return (2/np.pi)*k**1.5*np.sqrt(D**2*depth*beam)*(T/np.sqrt(B*1e6*seconds))**2*core*A/collect**2/np.sqrt(eps)*np.sqrt(2*ell + 1)

"""Reference definitions for tau.py: Thomson optical depth by the trapezium rule over the redshifts given."""
from . import const
from .lightcone import make_lightcone
import numpy as np


def _coefficient():
    return 2*const.c*1e5*6.65e-25*const.OmegaB/const.Omega0*const.rho_crit_0*(1 + const.abu_he)/const.mean_molecular/const.m_p/(3*const.H0cgs)


def tau(ionfractions, redshifts, num_points=50):
    if len(ionfractions) != len(redshifts):
        raise Exception()
    order = np.argsort(redshifts)
    x, z = ionfractions[order], redshifts[order]
    coeff = _coefficient()
    tau_z = np.hstack((np.arange(1, num_points + 1)/num_points*z[0], z))
    out = np.zeros(len(z) + num_points)
    out[0:num_points] = coeff*(np.sqrt(const.Omega0*(1 + tau_z[0:num_points])**3 + const.lam) - 1)
    for i in range(num_points, len(z) + num_points):
        a, b = tau_z[i - 1], tau_z[i]
        fa = x[i - 1 - num_points]*(1 + a)**2/np.sqrt(const.Omega0*(1 + a)**3 + const.lam)
        fb = x[i - num_points]*(1 + b)**2/np.sqrt(const.Omega0*(1 + b)**3 + const.lam)
        out[i] = out[i - 1] + 1.5*coeff*const.Omega0*(fa + fb)*(b - a)/2
    return out, tau_z


def tau_map(ionfractions, redshifts=None, num_points=50, reading_function=None):
    if redshifts is None:
        assert isinstance(ionfractions, dict)
        redshifts = np.sort(np.array(list(ionfractions.keys())))
    if isinstance(ionfractions, np.ndarray):
        order = np.argsort(redshifts)
        cone, z = ionfractions[:, :, order], np.asarray(redshifts)[order]
    else:
        cone, z = make_lightcone(ionfractions, file_redshifts=redshifts, reading_function=reading_function)
    coeff = _coefficient()
    tau_z = np.hstack((np.linspace(z[0]/num_points, z[0], num_points), z))
    out = np.zeros((cone.shape[0], cone.shape[1], len(tau_z)))
    out[:, :, :num_points] = coeff*(np.sqrt(const.Omega0*(1 + tau_z[:num_points])**3 + const.lam) - 1)
    for i in range(num_points, len(tau_z)):
        a, b = tau_z[i - 1], tau_z[i]
        fa = cone[:, :, i - num_points - 1]*(1 + a)**2/np.sqrt(const.Omega0*(1 + a)**3 + const.lam)
        fb = cone[:, :, i - num_points]*(1 + b)**2/np.sqrt(const.Omega0*(1 + b)**3 + const.lam)
        out[:, :, i] = out[:, :, i - 1] + 1.5*coeff*const.Omega0*(fa + fb)*(b - a)/2
    return out, tau_z

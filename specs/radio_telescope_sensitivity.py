"""Reference definitions for radio_telescope_sensitivity.py: the radiometer equation and the Jansky-Kelvin relation."""
import numpy as np
from .scipy_func import *
from . import cosmo as cm
from . import conv
from .const import KB_SI, c_light_SI, janskytowatt
from .radio_telescope_layout import *
from .read_files import get_package_resource_path


def get_SEFD(nu_obs, T_sys=None, sefd_data=None, nu_data=None, D_station=40., ep_aperture=None, verbose=False):
    if isinstance(sefd_data, str):
        if sefd_data.upper() in ['SKA1-LOW', 'SKA1', 'SKAO-TEL-0000818']:
            table = np.loadtxt(get_package_resource_path('tools21cm', 'input_data/SEFD_SKAO-TEL-0000818-V2_SKA1.txt'))
            nu_data, sefd_data = table[:, 0], table[:, 2]
    if sefd_data is not None:
        if nu_data is None:
            raise ValueError
        return 10**(interp1d(nu_data, np.log10(sefd_data), fill_value='extrapolate')(nu_obs))
    nu = np.atleast_1d(nu_obs)
    if T_sys is None:
        T = 60*(300/nu)**2.55 + 100
    elif callable(T_sys):
        T = T_sys(nu)
    else:
        T = T_sys
    if ep_aperture is None:
        eff = np.where(nu > 110, (110/nu)**2, 1.0)
    elif callable(ep_aperture):
        eff = ep_aperture(nu)
    else:
        eff = ep_aperture
    area = eff*np.pi*(D_station/2)**2
    sefd = 2*KB_SI*T/area/janskytowatt*np.ones(nu.shape)
    if nu.size == 1:
        return sefd[0]
    return sefd


def sigma_noise_radio(z, depth_mhz, obs_time, int_time, uv_map=None, N_ant=512, verbose=True, T_sys=None, sefd_data=None, nu_data=None, D_station=40., ep_aperture=None):
    z = float(z)
    sefd = get_SEFD(1420.0/(1 + z), T_sys, sefd_data=sefd_data, nu_data=nu_data, D_station=D_station, ep_aperture=ep_aperture)
    visibility = 1e6*sefd/np.sqrt(2*depth_mhz*1e6*int_time)
    image = visibility/np.sqrt(N_ant*(N_ant - 1)/2)/np.sqrt(3600*obs_time/int_time)
    return image, visibility


def apply_uv_response(array, uv_map):
    re, im = np.real(array), np.imag(array)
    out = np.zeros(re.shape) + 1j*np.zeros(re.shape)
    n = re.shape[0]
    for i in range(n):
        for j in range(n):
            if uv_map[i, j] == 0:
                out[i, j] = 0
            else:
                out[i, j] = re[i, j]/np.sqrt(uv_map[i, j]) + 1j*im[i, j]/np.sqrt(uv_map[i, j])
    return out


def kelvin_jansky_conversion(ncells, z, boxsize=None):
    z = float(z)
    if not boxsize:
        boxsize = conv.LB
    pixel = (boxsize/cm.z_to_cdist(z))**2/ncells**2
    return 2*KB_SI/c_light_SI**2/janskytowatt*(cm.z_to_nu(z)*1e6)**2*1e3*pixel


def jansky_2_kelvin(array, z, boxsize=None, ncells=None):
    z = float(z)
    if not ncells:
        ncells = array.shape[0]
    return array/kelvin_jansky_conversion(ncells, z, boxsize=boxsize)


def kelvin_2_jansky(array, z, boxsize=None, ncells=None):
    z = float(z)
    if not ncells:
        ncells = array.shape[0]
    return array*kelvin_jansky_conversion(ncells, z, boxsize=boxsize)

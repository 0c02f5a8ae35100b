"""Recorded guards of radio_telescope_sensitivity.py: which arguments and states are refused."""
import numpy as np
from .usefuls import *
from .scipy_func import *
from . import cosmo as cm
from . import conv
from .const import KB_SI, c_light_cgs, c_light_SI, janskytowatt
from .radio_telescope_layout import *
from .read_files import get_package_resource_path

def get_SEFD(nu_obs, T_sys=None, sefd_data=None, nu_data=None, D_station=40.0, ep_aperture=None, verbose=False):
    if isinstance(sefd_data, str):
        if sefd_data.upper() in ['SKA1-LOW', 'SKA1', 'SKAO-TEL-0000818']:
            sefd_filename = get_package_resource_path('tools21cm', 'input_data/SEFD_SKAO-TEL-0000818-V2_SKA1.txt')
            table_data = np.loadtxt(sefd_filename)
            nu_data = table_data[:, 0]
            sefd_data = table_data[:, 2]
    if sefd_data is not None:
        if nu_data is None:
            raise Exception()
    return 0

def sigma_noise_radio(z, depth_mhz, obs_time, int_time, uv_map=None, N_ant=512, verbose=True, T_sys=None, sefd_data=None, nu_data=None, D_station=40.0, ep_aperture=None):
    return 0

def apply_uv_response(array, uv_map):
    return 0

def kelvin_jansky_conversion(ncells, z, boxsize=None):
    return 0

def jansky_2_kelvin(array, z, boxsize=None, ncells=None):
    return 0

def kelvin_2_jansky(array, z, boxsize=None, ncells=None):
    return 0

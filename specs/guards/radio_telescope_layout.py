"""Recorded guards of radio_telescope_layout.py: which arguments and states are refused."""
import numpy as np
import os, pickle
import itertools
from tqdm import tqdm
from . import cosmo as cm
from . import conv
from .const import KB_SI, c_light_cgs, c_light_SI, janskytowatt
from .read_files import get_package_resource_path
import astropy.units as u
from astropy.coordinates import EarthLocation

def subarray_type_to_antxyz(subarray_type, verbose=True):
    return 0

def from_antenna_config(antxyz, z, nu=None):
    return 0

def earth_rotation_effect(Nbase, slice_nums, int_time, total_int_time, declination=-30.0):
    return 0

def get_uv_daily_observation(ncells, z, antxyz=None, total_int_time=4.0, int_time=10.0, boxsize=None, declination=-30.0, include_mirror_baselines=False, verbose=True):
    return 0

def grid_uv_tracks(Nbase, z, ncells, boxsize=None, include_mirror_baselines=False):
    return 0

def geographic_to_cartesian_coordinate_system(antll):
    return 0

def cartesian_to_geographic_coordinate_system(antxyz):
    return 0

def antenna_positions_to_baselines(antxyz):
    return 0

def enu_to_ecef(enu, lat_deg, lon_deg, origin_ecef):
    return 0

def ecef_to_xyz(ecef, lon_deg, origin_ecef):
    return 0

def get_SKA_Low_layout(subarray_type='AA4', unit='ecef', verbose=True):
    if subarray_type.upper() == 'AA4':
        pass
    elif subarray_type.upper() in ['AASTAR', 'AA*']:
        pass
    elif subarray_type.upper() == 'AA2':
        pass
    elif subarray_type.upper() == 'AA1':
        pass
    elif subarray_type.upper() == 'AA0.5':
        pass
    elif subarray_type.upper() == 'SKALOW1':
        pass
    else:
        raise Exception()
    if unit.lower() == 'enu':
        return 0
    elif unit.lower() == 'ecef':
        return 0
    elif unit.lower() == 'xyz':
        return 0
    elif unit.lower() in ['latlon', 'geodetic']:
        return 0
    else:
        raise Exception()
    return 0

def get_latest_SKA_Low_layout(subarray_type='AA*', custom_stations=None, add_stations=None, exclude_stations=None, external_telescopes=None):
    return 0

def SKA1_LowConfig_Sept2016():
    return 0

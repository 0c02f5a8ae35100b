"""Recorded guards of radio_telescope_calibration.py: which arguments and states are refused."""
import numpy as np
import sys
from .radio_telescope_sensitivity import *
from .usefuls import *
from . import conv
from . import cosmo as cm
from . import smoothing as sm
from glob import glob
from time import time, sleep
import pickle
from joblib import cpu_count, Parallel, delayed
from tqdm import tqdm

def from_antenna_config_with_gains(antxyz, z, nu=None, gain_model={'name': 'random_uniform', 'min': 0.5, 'max': 1.1}):
    if isinstance(gain_model, dict):
        if 'name' in gain_model.keys():
            if gain_model['name'].lower() == 'random_gaussian':
                pass
            elif gain_model['name'].lower() == 'random_uniform':
                pass
            else:
                raise Exception()
        elif 'real' in gain_model.keys():
            pass
        elif 'phase' in gain_model.keys():
            pass
        else:
            raise Exception()
    return 0

def get_uv_map_with_gains(ncells, z, gain_model={'real': lambda n: np.random.normal(1, 0.5, n), 'imag': lambda n: np.random.normal(1, 0.5, n)}, gain_timescale=[10, 60], subarray_type='AA4', total_int_time=6.0, int_time=10.0, boxsize=None, declination=-30.0, include_mirror_baselines=False, verbose=True):
    return 0

def _grid_uv_tracks_with_gains(Nbase, gain_vals, gain_uv_map, z, ncells, boxsize=None, include_mirror_baselines=False, verbose=True):
    return 0

def gain_uv_map_to_uv_map(gain_uv_map):
    return 0

def apply_uv_with_gains_response_on_image(array, gain_uv_map, verbose=True):
    assert array.shape == gain_uv_map[:, :, 0].shape
    return 0

def from_antenna_config_with_antenna_stamp(antxyz, z, nu=None):
    return 0

def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type='AA4', total_int_time=6.0, int_time=10.0, boxsize=None, declination=-30.0, include_mirror_baselines=False, verbose=True, n_jobs=-1):
    if include_mirror_baselines:
        raise Exception()
    return 0

def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
    return 0

def _grid_uv_tracks_with_antenna_stamp(Nbase, ant_tag, ant_tag_uv_map, z, ncells, time_idx, boxsize=None, include_mirror_baselines=False, verbose=True):
    return 0

def full_uv_map_with_antenna_stamp_to_uv_map(ant_tag_uv_map, verbose=True):
    return 0

def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type='AA4', total_int_time=6.0, int_time=10.0, boxsize=None, declination=-30.0, include_mirror_baselines=False, verbose=True, n_jobs=-1):
    if include_mirror_baselines:
        raise Exception()
    return 0

def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
    return 0

def _grid_uv_lagrangian_tracks_with_antenna_stamp(Nbase, ant_tag, ant_tag_uv_map, z, ncells, time_idx, boxsize=None, include_mirror_baselines=False, verbose=True):
    return 0

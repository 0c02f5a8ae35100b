"""Recorded guards of lightcone.py: which arguments and states are refused."""
from . import const, conv
import numpy as np
import os, glob, time
from .helper_functions import get_mesh_size, determine_redshift_from_filename, get_data_and_type, print_msg, find_idx
from .density_file import DensityFile
from .vel_file import VelocityFile
from . import cosmo as cm
from . import statistics as st
from . import smoothing
import scipy.interpolate
from tqdm import tqdm

def make_lightcone(filenames, z_low=None, z_high=None, depth_mhz=None, file_redshifts=None, cbin_bits=32, cbin_order='c', los_axis=0, raw_density=False, interpolation='linear', reading_function=None, box_length_mpc=None):
    if not interpolation in ['linear', 'step', 'sigmoid', 'step_cell']:
        raise Exception()
    if isinstance(filenames, dict):
        if reading_function is None:
            reading_function = lambda x: x
        file_redshifts = np.sort(list(filenames.keys()))
        filenames = {ii: filenames[zi] for ii, zi in enumerate(file_redshifts)}
    if reading_function is None:
        filenames = _get_filenames(filenames)
        file_redshifts = _get_file_redshifts(file_redshifts, filenames)
    else:
        assert file_redshifts is not None
    file_redshifts = np.asarray(file_redshifts)
    assert len(file_redshifts) == len(filenames)
    return 0

def make_velocity_lightcone(vel_filenames, dens_filenames, z_low=None, z_high=None, file_redshifts=None, los_axis=0, vel_reading_function=None, dens_reading_function=None):
    if isinstance(vel_filenames, dict):
        file_redshifts = np.sort(list(vel_filenames.keys()))
        vel_filenames = {ii: vel_filenames[zi] for ii, zi in enumerate(file_redshifts)}
        dens_filenames = {ii: dens_filenames[zi] for ii, zi in enumerate(file_redshifts)}
    else:
        dens_filenames = _get_filenames(dens_filenames)
        file_redshifts = _get_file_redshifts(file_redshifts, dens_filenames)
        vel_filenames = _get_filenames(vel_filenames)
    assert len(file_redshifts) == len(vel_filenames)
    assert len(vel_filenames) == len(dens_filenames)
    return 0

def _get_bracket(file_redshifts, z):
    return 0

def _get_output_z(file_redshifts, z_low, z_high, box_grid_n, box_length_mpc=None, dnu=None):
    if z_low is None:
        z_low = file_redshifts.min()
    if z_high is None:
        z_high = file_redshifts.max()
    if dnu:
        output_z = redshifts_at_equal_frequncy_width(z_low, z_high, dnu)
    else:
        output_z = redshifts_at_equal_comoving_distance(z_low, z_high, box_grid_n, box_length_mpc=box_length_mpc)
    if min(output_z) < min(file_redshifts) or max(output_z) > max(file_redshifts):
        output_z = output_z[output_z >= min(file_redshifts)]
        output_z = output_z[output_z <= max(file_redshifts)]
    if len(output_z) < 1:
        raise Exception()
    return 0

def redshifts_at_equal_comoving_distance(z_low, z_high, box_grid_n=256, box_length_mpc=None):
    assert z_high > z_low
    return 0

def redshifts_at_equal_frequncy_width(z_low, z_high, dnu):
    assert z_high > z_low
    return 0

def get_lightcone_subvolume(lightcone, redshifts, central_z, depth_mhz=None, depth_mpc=None, odd_num_cells=True, subtract_mean=True, fov_Mpc=None, verbose=True):
    assert (depth_mhz is None) != (depth_mpc is None)
    central_nu = cm.z_to_nu(central_z)
    if depth_mpc != None:
        central_dist = cm.nu_to_cdist(central_nu)
        min_cdist, max_cdist = (central_dist - depth_mpc / 2.0, central_dist + depth_mpc / 2.0)
        low_z = cm.cdist_to_z(min_cdist)
        high_z = cm.cdist_to_z(max_cdist)
        min_freq, max_freq = (cm.z_to_nu(high_z), cm.z_to_nu(low_z))
    else:
        min_freq, max_freq = (central_nu - depth_mhz / 2.0, central_nu + depth_mhz / 2.0)
        min_cdist, max_cdist = (cm.z_to_cdist(cm.nu_to_z(max_freq)), cm.z_to_cdist(cm.nu_to_z(min_freq)))
        low_z = cm.nu_to_z(max_freq)
        high_z = cm.nu_to_z(min_freq)
    if low_z < redshifts.min():
        raise Exception()
    if high_z > redshifts.max():
        raise Exception()
    return 0

def _get_interp_slice(data_high, data_low, z_bracket_high, z_bracket_low, z, comoving_pos_idx, los_axis, interpolation='linear'):
    if interpolation == 'linear':
        pass
    elif interpolation == 'step':
        pass
    elif interpolation == 'sigmoid':
        pass
    elif interpolation == 'step_cell':
        pass
    else:
        raise Exception()
    return 0

def _get_step_weighted_slice(slice_low, slice_high, z_bracket_high, z_bracket_low, z):
    return 0

def _get_step_transitions(cell_dist, diff_idx):
    return 0

def _get_slice(data, idx, los_axis, slice_depth=1):
    assert len(data.shape) == 3 or len(data.shape) == 4
    assert los_axis >= 0 and los_axis < 3
    return 0

def _get_filenames(filenames_in):
    if hasattr(filenames_in, '__iter__') and (not isinstance(filenames_in, str)):
        pass
    elif os.path.isdir(filenames_in):
        files_in_dir = sorted(glob.glob(filenames_in + '/*'))
        extensions = [os.path.splitext(f)[-1] for f in files_in_dir]
        if not _all_same(extensions):
            raise Exception()
    elif os.path.isfile(filenames_in):
        with open(filenames_in) as f:
            pass
    else:
        raise Exception()
    return 0

def _get_file_redshifts(redshifts_in, filenames):
    if hasattr(redshifts_in, '__iter__') and (not isinstance(redshifts_in, str)):
        pass
    elif redshifts_in is None:
        pass
    elif os.path.exists(redshifts_in):
        pass
    else:
        raise Exception()
    return 0

def _all_same(items):
    return 0

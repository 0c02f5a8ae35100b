"""Recorded guards of angular_coordinates.py: which arguments and states are refused."""
import numpy as np
from .lightcone import redshifts_at_equal_comoving_distance
from . import cosmo as cm
from . import conv
from . import helper_functions as hf
from . import smoothing
from . import const
from scipy.signal import fftconvolve
from tqdm import tqdm

def physical_lightcone_to_observational(physical_lightcone, input_z_low, output_dnu, output_dtheta, input_box_size_mpc=None, verbose=True, order=2, mode='pad'):
    assert mode.lower() in ['pad', 'full', 'extend', 'crop', 'valid']
    return 0

def observational_lightcone_to_physical(observational_lightcone, input_freqs, input_dtheta, verbose=True, order=2):
    assert input_freqs[0] > input_freqs[-1]
    assert observational_lightcone.shape[0] == observational_lightcone.shape[1]
    return 0

def physical_slice_to_angular(input_slice, z, slice_size_mpc, fov_deg, dtheta, order=0):
    return 0

def angular_slice_to_physical(input_slice, z, slice_size_deg, output_cell_size, output_size_mpc, order=0, prefilter=True):
    return 0

def resample_slice(input_slice, n_output_cells, order=0, prefilter=True):
    return 0

def bin_lightcone_in_frequency(lightcone, z_low, box_size_mpc, dnu):
    return 0

def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
    return 0

def _get_padded_slice(input_slice, padded_n):
    return 0

def padding_lightcone(lc, padded_n=None, mode='wrap', verbose=True):
    return 0

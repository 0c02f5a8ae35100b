"""Recorded guards of deprecated.py: which arguments and states are refused."""
import numpy as np
import os
from .lightcone import redshifts_at_equal_comoving_distance, _get_interp_slice
from .xfrac_file import XfracFile
from .density_file import DensityFile
from .helper_functions import print_msg, get_dens_redshifts, get_mesh_size, determine_redshift_from_filename, get_data_and_type, read_cbin, save_cbin
from .temperature import calc_dt
from . import smoothing

def freq_box(xfrac_dir, dens_dir, z_low, z_high):
    dens_redshifts = get_dens_redshifts(dens_dir, z_low)
    mesh_size = get_mesh_size(os.path.join(dens_dir, '%.3fn_all.dat' % dens_redshifts[0]))
    output_z = redshifts_at_equal_comoving_distance(z_low, z_high, box_grid_n=mesh_size[0])
    output_z = output_z[output_z > dens_redshifts[0]]
    output_z = output_z[output_z < dens_redshifts[-1]]
    if len(output_z) < 1:
        raise Exception()
    return 0

def read_binary_with_meshinfo(filename, bits=32, order='C'):
    return 0

def save_binary_with_meshinfo(filename, data, bits=32, order='C'):
    return 0

def smooth(input_array, sigma):
    return 0

"""Recorded guards of pv_mpm.py: which arguments and states are refused."""
import numpy as np
from . import const
from . import conv
from .helper_functions import print_msg, get_interpolated_array, read_cbin
from . import vel_file
from . import density_file

def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis=0, num_particles=10, periodic=True):
    assert dT.shape[(los_axis + 1) % 3] == dT.shape[(los_axis + 2) % 3]
    assert los_axis == 0 or los_axis == 1 or los_axis == 2
    return 0

def make_pv_box(dT_filename, vel_filename, dens_filename, z, los=0, num_particles=10):
    return 0

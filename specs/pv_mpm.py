"""Reference definitions for pv_mpm.py: mesh-particle-mesh velocity distortion."""
import numpy as np
from . import const
from . import conv
from .helper_functions import get_interpolated_array, read_cbin
from . import vel_file
from . import density_file


def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis=0, num_particles=10, periodic=True):
    assert dT.shape[(los_axis + 1) % 3] == dT.shape[(los_axis + 2) % 3]
    depth = dT.shape[los_axis]
    width = dT.shape[(los_axis + 1) % 3]
    length = depth*(conv.LB/width)
    assert los_axis == 0 or los_axis == 1 or los_axis == 2
    redsh = np.atleast_1d(redsh)
    vpar = kms[velocity_axis, :, :, :]
    z_obs = (1 + redsh)/(1. - vpar/const.c) - 1.
    dr = (1. + z_obs)*vpar/const.Hz(z_obs)
    out = np.zeros(dT.shape, dtype=np.result_type(dT, np.float32))
    signal = np.zeros(depth*num_particles)
    for i in range(width):
        for j in range(width):
            if los_axis == 0:
                row, shift = dT[:, i, j], dr[:, i, j]
            elif los_axis == 1:
                row, shift = dT[i, :, j], dr[i, :, j]
            else:
                row, shift = dT[i, j, :], dr[i, j, :]
            where = np.linspace(0, length, depth*num_particles)
            for n in range(num_particles):
                signal[n::num_particles] = row/float(num_particles)
            where = where + get_interpolated_array(shift, len(where), 'linear')
            if periodic:
                outside = (where < 0) | (where > length)
                where[outside] = where[outside] % length
            counts = np.histogram(where, bins=np.linspace(0, length, depth + 1), weights=signal)[0]
            if los_axis == 0:
                out[:, i, j] = counts
            elif los_axis == 1:
                out[i, :, j] = counts
            else:
                out[i, j, :] = counts
    return out


def make_pv_box(dT_filename, vel_filename, dens_filename, z, los=0, num_particles=10):
    dT = read_cbin(dT_filename, bits=32, order='c')
    vfile = vel_file.VelocityFile(vel_filename)
    dfile = density_file.DensityFile(dens_filename)
    kms = vfile.get_kms_from_density(dfile)
    return get_distorted_dt(dT, kms, redsh=z, los_axis=los, velocity_axis=los, num_particles=num_particles)

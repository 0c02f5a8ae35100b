"""Reference definitions: lightcones (P20, P13).

A slice at redshift z takes position (index mod box) from the snapshots below and above z; linear weights are the
distances in redshift to the two, so that the slice equals a snapshot at its own redshift.
"""
from . import const, conv
import numpy as np
import os, glob
from .helper_functions import get_mesh_size, determine_redshift_from_filename, get_data_and_type
from .density_file import DensityFile
from .vel_file import VelocityFile
from . import cosmo as cm
from . import statistics as st
from . import smoothing
import scipy.interpolate


def make_lightcone(filenames, z_low=None, z_high=None, depth_mhz=None, file_redshifts=None, cbin_bits=32, cbin_order='c', los_axis=0, raw_density=False, interpolation='linear', reading_function=None, box_length_mpc=None):
    if not interpolation in ['linear', 'step', 'sigmoid', 'step_cell']:
        raise ValueError(interpolation)
    if isinstance(filenames, dict):
        if reading_function is None:
            reading_function = lambda x: x
        file_redshifts = np.sort(list(filenames.keys()))
        filenames = {ii: filenames[zi] for ii, zi in enumerate(file_redshifts)}
    if reading_function is None:
        filenames = _get_filenames(filenames)
        file_redshifts = _get_file_redshifts(file_redshifts, filenames)
        mesh_size = get_mesh_size(filenames[0])
    else:
        assert file_redshifts is not None
        mesh_size = reading_function(filenames[0]).shape
    file_redshifts = np.asarray(file_redshifts)
    assert len(file_redshifts) == len(filenames)
    output_z = _get_output_z(file_redshifts, z_low, z_high, mesh_size[0], box_length_mpc=box_length_mpc, dnu=depth_mhz)
    lightcone = np.zeros((mesh_size[0], mesh_size[1], len(output_z)), dtype='float32')
    i = 0
    below = None
    above = None
    data_low = None
    data_high = None
    for ii in range(len(output_z)):
        z = output_z[ii]
        new_below, new_above = _get_bracket(file_redshifts, z)
        if new_below != below:
            below = new_below
            k = np.argmin(np.abs(file_redshifts - below))
            if data_high is None or below != above:
                if reading_function is None:
                    data_low, _ = get_data_and_type(filenames[k], cbin_bits, cbin_order, raw_density)
                else:
                    data_low = reading_function(filenames[k])
            else:
                data_low = data_high
        if new_above != above:
            above = new_above
            k = np.argmin(np.abs(file_redshifts - above))
            if reading_function is None:
                data_high, _ = get_data_and_type(filenames[k], cbin_bits, cbin_order, raw_density)
            else:
                data_high = reading_function(filenames[k])
        lightcone[:, :, i] = _get_interp_slice(data_high, data_low, above, below, z, i, los_axis, interpolation)
        i += 1
    return lightcone, output_z


def make_velocity_lightcone(vel_filenames, dens_filenames, z_low=None, z_high=None, file_redshifts=None, los_axis=0, vel_reading_function=None, dens_reading_function=None):
    if isinstance(vel_filenames, dict):
        file_redshifts = np.sort(list(vel_filenames.keys()))
        vel_filenames = {ii: vel_filenames[zi] for ii, zi in enumerate(file_redshifts)}
        dens_filenames = {ii: dens_filenames[zi] for ii, zi in enumerate(file_redshifts)}
        if vel_reading_function is None:
            vel_reading_function = lambda x: x
        if dens_reading_function is None:
            dens_reading_function = lambda x: x
        mesh_size = dens_reading_function(dens_filenames[0]).shape
        get_kms = lambda v, d: v
    else:
        dens_filenames = _get_filenames(dens_filenames)
        file_redshifts = _get_file_redshifts(file_redshifts, dens_filenames)
        vel_filenames = _get_filenames(vel_filenames)
        mesh_size = get_mesh_size(dens_filenames[0])
        if vel_reading_function is None:
            vel_reading_function = lambda x: VelocityFile(x)
        if dens_reading_function is None:
            dens_reading_function = lambda x: DensityFile(x)
        get_kms = lambda v, d: v.get_kms_from_density(d)
    assert len(file_redshifts) == len(vel_filenames)
    assert len(vel_filenames) == len(dens_filenames)
    output_z = _get_output_z(file_redshifts, z_low, z_high, mesh_size[0])
    lightcone = np.zeros((3, mesh_size[0], mesh_size[1], len(output_z)), dtype='float32')
    i = 0
    below = None
    above = None
    for ii in range(len(output_z)):
        z = output_z[ii]
        new_below, new_above = _get_bracket(file_redshifts, z)
        if new_below != below:
            below = new_below
            k = np.argmin(np.abs(file_redshifts - below))
            d = dens_reading_function(dens_filenames[k])
            data_low = get_kms(vel_reading_function(vel_filenames[k]), d)
        if new_above != above:
            above = new_above
            k = np.argmin(np.abs(file_redshifts - above))
            d = dens_reading_function(dens_filenames[k])
            data_high = get_kms(vel_reading_function(vel_filenames[k]), d)
        lightcone[:, :, :, i] = _get_interp_slice(data_high, data_low, above, below, z, i, los_axis)
        i += 1
    return lightcone, output_z


def _get_bracket(file_redshifts, z):
    above = file_redshifts[file_redshifts > z]
    if len(above) == 0:
        return file_redshifts[file_redshifts < z].max(), file_redshifts.max()
    return file_redshifts[file_redshifts <= z].max(), above.min()


def _get_output_z(file_redshifts, z_low, z_high, box_grid_n, box_length_mpc=None, dnu=None):
    if z_low is None:
        z_low = file_redshifts.min()
    if z_high is None:
        z_high = file_redshifts.max()
    if dnu:
        z = redshifts_at_equal_frequncy_width(z_low, z_high, dnu)
    else:
        z = redshifts_at_equal_comoving_distance(z_low, z_high, box_grid_n, box_length_mpc=box_length_mpc)
    if min(z) < min(file_redshifts) or max(z) > max(file_redshifts):
        z = z[z >= min(file_redshifts)]
        z = z[z <= max(file_redshifts)]
    if len(z) < 1:
        raise Exception('no redshifts')
    return z


def redshifts_at_equal_comoving_distance(z_low, z_high, box_grid_n=256, box_length_mpc=None):
    if box_length_mpc is None:
        box_length_mpc = conv.LB
    assert z_high > z_low
    z = z_low
    out = []
    while z < z_high:
        out.append(z)
        dnu = const.nu0*const.Hz(z)*box_length_mpc/(1.0 + z)**2/const.c/float(box_grid_n)
        z = const.nu0/(const.nu0/(1.0 + z) - dnu) - 1.0
    return np.array(out)


def redshifts_at_equal_frequncy_width(z_low, z_high, dnu):
    assert z_high > z_low
    z = z_high
    out = []
    while z > z_low:
        out.append(z)
        z = (z - dnu/const.nu0*(1 + z))/(1 + dnu/const.nu0*(1 + z))
    return np.array(out)[::-1]


def get_lightcone_subvolume(lightcone, redshifts, central_z, depth_mhz=None, depth_mpc=None, odd_num_cells=True, subtract_mean=True, fov_Mpc=None, verbose=True):
    assert (depth_mhz is None) != (depth_mpc is None)
    if fov_Mpc is None:
        fov_Mpc = conv.LB
    central_nu = cm.z_to_nu(central_z)
    if depth_mpc != None:
        d = cm.nu_to_cdist(central_nu)
        near, far = d - depth_mpc/2., d + depth_mpc/2.
        low_z = cm.cdist_to_z(near)
        high_z = cm.cdist_to_z(far)
    else:
        low_z = cm.nu_to_z(central_nu + depth_mhz/2.)
        high_z = cm.nu_to_z(central_nu - depth_mhz/2.)
        near, far = cm.z_to_cdist(low_z), cm.z_to_cdist(high_z)
    if low_z < redshifts.min():
        raise Exception('low')
    if high_z > redshifts.max():
        raise Exception('high')
    a = np.argmin(np.abs(redshifts - low_z))
    b = np.argmin(np.abs(redshifts - high_z))
    if (b - a) % 2 == 0 and odd_num_cells:
        b += 1
    sub = lightcone[:, :, a:b]
    if subtract_mean:
        sub = st.subtract_mean_signal(sub, los_axis=2)
    return sub, (fov_Mpc, fov_Mpc, far - near), redshifts[a:b]


def _get_interp_slice(data_high, data_low, z_bracket_high, z_bracket_low, z, comoving_pos_idx, los_axis, interpolation='linear'):
    i = comoving_pos_idx % data_low.shape[1]
    low = _get_slice(data_low, i, los_axis)
    high = _get_slice(data_high, i, los_axis)
    if interpolation == 'linear':
        return ((z - z_bracket_low)*high + (z_bracket_high - z)*low)/(z_bracket_high - z_bracket_low)
    if interpolation == 'step':
        if z < (z_bracket_high + z_bracket_low)/2.:
            return low.copy()
        return high.copy()
    if interpolation == 'sigmoid':
        g = 1./(1. + np.exp(-2.*(-10. + 20.*(z - z_bracket_low)/(z_bracket_high - z_bracket_low))))
        return low*(1. - g) + high*g
    if interpolation == 'step_cell':
        return _get_step_weighted_slice(low, high, z_bracket_high, z_bracket_low, z)
    raise Exception(interpolation)


def _get_step_weighted_slice(slice_low, slice_high, z_bracket_high, z_bracket_low, z):
    smoothed = smoothing.smooth_gauss(slice_high, sigma=4.)
    t = _get_step_transitions(smoothed, np.abs(slice_high - slice_low) > 1.e-3)
    t = z_bracket_low + t*(z_bracket_high - z_bracket_low)
    out = slice_high.copy()
    out[z < t] = slice_low[z < t]
    return out


def _get_step_transitions(cell_dist, diff_idx):
    v = cell_dist[diff_idx].flatten()
    if len(v) < 2:
        return np.zeros(cell_dist.shape)
    v = sorted(v + np.linspace(0., 1.e-9, len(v)))
    u = np.linspace(v[0], v[-1], len(v))
    out = scipy.interpolate.interp1d(v, u, bounds_error=False, fill_value=0.)(cell_dist)
    out -= out.min()
    out /= out.max()
    return out


def _get_slice(data, idx, los_axis, slice_depth=1):
    assert len(data.shape) == 3 or len(data.shape) == 4
    assert los_axis >= 0 and los_axis < 3
    end = idx + slice_depth
    if len(data.shape) == 3:
        if los_axis == 0:
            return np.squeeze(data[idx:end, :, :])
        if los_axis == 1:
            return np.squeeze(data[:, idx:end, :])
        return np.squeeze(data[:, :, idx:end])
    if los_axis == 0:
        return np.squeeze(data[:, idx:end, :, :])
    if los_axis == 1:
        return np.squeeze(data[:, :, idx:end, :])
    return np.squeeze(data[:, :, :, idx:end])


def _get_filenames(filenames_in):
    if hasattr(filenames_in, '__iter__') and not isinstance(filenames_in, str):
        out = filenames_in
    elif os.path.isdir(filenames_in):
        out = sorted(glob.glob(filenames_in + '/*'))
        if not _all_same([os.path.splitext(f)[-1] for f in out]):
            raise Exception('types')
    elif os.path.isfile(filenames_in):
        with open(filenames_in) as f:
            out = [l.strip() for l in f.readlines()]
    else:
        raise Exception('input')
    return np.array(out)


def _get_file_redshifts(redshifts_in, filenames):
    if hasattr(redshifts_in, '__iter__') and not isinstance(redshifts_in, str):
        return np.asarray(redshifts_in)
    if redshifts_in is None:
        return np.array([determine_redshift_from_filename(f) for f in filenames])
    if os.path.exists(redshifts_in):
        return np.loadtxt(redshifts_in)
    raise Exception('input')


def _all_same(items):
    return all(x == items[0] for x in items)

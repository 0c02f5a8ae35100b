"""Reference definitions: uv coverage with antenna gains and with antenna tags (P34)."""
import itertools
import numpy as np
from . import conv
from . import cosmo as cm
from .radio_telescope_layout import SKA1_LowConfig_Sept2016, geographic_to_cartesian_coordinate_system, subarray_type_to_antxyz, earth_rotation_effect
from joblib import cpu_count, Parallel, delayed


def _metres(antxyz):
    if antxyz is None:
        table = SKA1_LowConfig_Sept2016()
        return geographic_to_cartesian_coordinate_system(table[:, -2:].astype(float))
    if hasattr(antxyz, 'unit'):
        return antxyz.to('m').value
    return antxyz


def _wavelength(z, nu):
    mhz = nu if nu else cm.z_to_nu(z)
    return 2.99792458e+10/(mhz*1e6)/1e2


def from_antenna_config_with_gains(antxyz, z, nu=None, gain_model={'name': 'random_uniform', 'min': 0.5, 'max': 1.1}):
    z = float(z)
    xyz = _metres(antxyz)
    lam = _wavelength(z, nu)
    n = xyz.shape[0]
    if isinstance(gain_model, dict):
        if 'name' in gain_model.keys():
            if gain_model['name'].lower() == 'random_gaussian':
                re = np.random.normal(gain_model['mu'], gain_model['std'], n)
                im = np.random.normal(gain_model['mu'], gain_model['std'], n)
            elif gain_model['name'].lower() == 'random_uniform':
                re = np.random.uniform(gain_model['min'], gain_model['max'], n)
                im = np.random.uniform(gain_model['min'], gain_model['max'], n)
            else:
                raise ValueError('gain_model')
        elif 'real' in gain_model.keys():
            re = gain_model['real'](n)
            im = gain_model['imag'](n)
        elif 'phase' in gain_model.keys():
            re = gain_model['amplitude'](n)
            im = gain_model['phase'](n)
        else:
            raise ValueError('gain_model')
    else:
        re, im = gain_model[:, 0], gain_model[:, 1]
    rows = []
    for i, j in list(itertools.combinations(range(n), 2)):
        rows.append([(xyz[i, 0] - xyz[j, 0])/lam, (xyz[i, 1] - xyz[j, 1])/lam, (xyz[i, 2] - xyz[j, 2])/lam,
                     re[i]*re[j], im[i]*im[j], re[i]*im[j], im[i]*re[j]])
    return np.array(rows), n


def from_antenna_config_with_antenna_stamp(antxyz, z, nu=None):
    z = float(z)
    xyz = _metres(antxyz)
    lam = _wavelength(z, nu)
    n = xyz.shape[0]
    tag = np.arange(n) + 1
    rows = []
    for i, j in list(itertools.combinations(range(n), 2)):
        rows.append([(xyz[i, 0] - xyz[j, 0])/lam, (xyz[i, 1] - xyz[j, 1])/lam, (xyz[i, 2] - xyz[j, 2])/lam, tag[i], tag[j]])
    return np.array(rows), n


def _cells(Nbase, z, ncells, boxsize):
    if boxsize is None:
        boxsize = conv.LB
    Nb = np.round(Nbase*(boxsize/cm.z_to_cdist(z)))
    keep = (Nb[:, 0] < ncells/2) & (Nb[:, 1] < ncells/2) & (Nb[:, 0] >= -ncells/2) & (Nb[:, 1] >= -ncells/2)
    return Nb, keep


def _grid_uv_tracks_with_gains(Nbase, gain_vals, gain_uv_map, z, ncells, boxsize=None, include_mirror_baselines=False, verbose=True):
    Nb, keep = _cells(Nbase, z, ncells, boxsize)
    g = gain_vals[keep, :]
    for (x, y), rr, ii, ri, ir in zip(Nb[keep][:, :2], g[:, 0], g[:, 1], g[:, 2], g[:, 3]):
        gain_uv_map[int(x), int(y), 0] += 1
        gain_uv_map[int(x), int(y), 1] += rr
        gain_uv_map[int(x), int(y), 2] += ii
        gain_uv_map[int(x), int(y), 3] += ri
        gain_uv_map[int(x), int(y), 4] += ir
        if include_mirror_baselines:
            gain_uv_map[-int(x), -int(y), 0] += 1
            gain_uv_map[-int(x), -int(y), 1] += rr
            gain_uv_map[-int(x), -int(y), 2] += ii
            gain_uv_map[-int(x), -int(y), 3] += ri
            gain_uv_map[-int(x), -int(y), 4] += ir


def get_uv_map_with_gains(ncells, z, gain_model={'real': lambda n: np.random.normal(1, 0.5, n), 'imag': lambda n: np.random.normal(1, 0.5, n)}, gain_timescale=[10, 60],
                          subarray_type="AA4", total_int_time=6., int_time=10., boxsize=None, declination=-30., include_mirror_baselines=False, verbose=True):
    out = np.zeros((ncells, ncells, 5))
    antxyz, N_ant = subarray_type_to_antxyz(subarray_type)
    for t in range(int(3600.*total_int_time/int_time)):
        if np.any([not t*int_time % s for s in gain_timescale]):
            Nbase, N_ant = from_antenna_config_with_gains(antxyz, z, gain_model=gain_model)
        rot = earth_rotation_effect(Nbase[:, :3], t, int_time, total_int_time, declination)
        _grid_uv_tracks_with_gains(rot, Nbase[:, 3:], out, z, ncells, boxsize=boxsize, include_mirror_baselines=include_mirror_baselines)
    return out, N_ant


def gain_uv_map_to_uv_map(gain_uv_map):
    return gain_uv_map[:, :, 0].astype(int)


def apply_uv_with_gains_response_on_image(array, gain_uv_map, verbose=True):
    assert array.shape == gain_uv_map[:, :, 0].shape
    mean_gain = (gain_uv_map[:, :, 1] + 1.j*gain_uv_map[:, :, 2])/gain_uv_map[:, :, 0]
    ft = np.fft.fft2(array)*np.sqrt(np.nan_to_num(mean_gain))
    return np.real(np.fft.ifft2(ft))


def _grid_uv_tracks_with_antenna_stamp(Nbase, ant_tag, ant_tag_uv_map, z, ncells, time_idx, boxsize=None, include_mirror_baselines=False, verbose=True):
    Nb, keep = _cells(Nbase, z, ncells, boxsize)
    one, two = ant_tag[:, 0][keep], ant_tag[:, 1][keep]
    for (x, y), a, b in zip(Nb[keep][:, :2].astype(int), one.astype(int), two.astype(int)):
        ant_tag_uv_map[time_idx, x, y].append([a, b])


def _grid_uv_lagrangian_tracks_with_antenna_stamp(Nbase, ant_tag, ant_tag_uv_map, z, ncells, time_idx, boxsize=None, include_mirror_baselines=False, verbose=True):
    Nb, keep = _cells(Nbase, z, ncells, boxsize)
    for i, (x, y) in zip(np.flatnonzero(keep), Nb[keep, :2].astype(int)):
        ant_tag_uv_map[time_idx, i, 0] = x
        ant_tag_uv_map[time_idx, i, 1] = y


def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
    out = np.empty((chunk_end - chunk_start, ncells, ncells), dtype=object)
    for t in range(chunk_start, chunk_end):
        for x in range(ncells):
            for y in range(ncells):
                out[t - chunk_start, x, y] = []
    for t in range(chunk_start, chunk_end):
        rot = earth_rotation_effect(Nbase[:, :3], t, int_time, total_int_time, declination)
        _grid_uv_tracks_with_antenna_stamp(rot, Nbase[:, 3:], out, z, ncells, t - chunk_start, boxsize=boxsize, include_mirror_baselines=include_mirror_baselines)
    return out


def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
    out = np.full((chunk_end - chunk_start, Nbase.shape[0], 2), np.nan)
    for t in range(chunk_start, chunk_end):
        rot = earth_rotation_effect(Nbase[:, :3], t, int_time, total_int_time, declination)
        _grid_uv_lagrangian_tracks_with_antenna_stamp(rot, Nbase[:, 3:], out, z, ncells, t - chunk_start, boxsize=boxsize, include_mirror_baselines=include_mirror_baselines)
    return out


def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int_time=6., int_time=10., boxsize=None, declination=-30., include_mirror_baselines=False, verbose=True, n_jobs=-1):
    if include_mirror_baselines:
        raise NotImplementedError('include_mirror_baselines')
    antxyz, _ = subarray_type_to_antxyz(subarray_type)
    n = int(3600.*total_int_time/int_time)
    Nbase, N_ant = from_antenna_config_with_antenna_stamp(antxyz, z)
    jobs = cpu_count() if n_jobs == -1 else n_jobs
    step = max(1, n//jobs)
    parts = [_process_chunk_get_full_uv_map_with_antenna_stamp(i, min(i + step, n), ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(k == 0)) for k, i in enumerate(range(0, n, step))]
    return np.concatenate(parts, axis=0), N_ant


def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int_time=6., int_time=10., boxsize=None, declination=-30., include_mirror_baselines=False, verbose=True, n_jobs=-1):
    if include_mirror_baselines:
        raise NotImplementedError('include_mirror_baselines')
    antxyz, _ = subarray_type_to_antxyz(subarray_type)
    n = int(3600.*total_int_time/int_time)
    Nbase, _ = from_antenna_config_with_antenna_stamp(antxyz, z)
    jobs = cpu_count() if n_jobs == -1 else n_jobs
    step = max(1, n//jobs)
    parts = [_process_chunk_get_full_uv_lagrangian_with_antenna_stamp(i, min(i + step, n), ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(k == 0)) for k, i in enumerate(range(0, n, step))]
    return np.concatenate(parts, axis=0), Nbase[:, -2:]


def full_uv_map_with_antenna_stamp_to_uv_map(ant_tag_uv_map, verbose=True):
    uv_map = np.zeros_like(ant_tag_uv_map[0, :, :])
    for (i, j), _ in np.ndenumerate(uv_map):
        uv_map[i, j] = np.array([np.array(v).shape[0] for v in ant_tag_uv_map[:, i, j]]).sum()
    return uv_map.astype(int)

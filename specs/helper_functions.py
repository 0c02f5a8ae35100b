"""Reference definitions: readers, writers and array helpers (P10, P20, P27)."""
import glob
import os
import time
import pickle
import numpy as np
from astropy.io import fits
from scipy.interpolate import interp1d
from . import const

verbose = False


def print_msg(message, print_time=True):
    pass


def set_verbose(_verbose):
    global verbose
    verbose = _verbose


def real_to_fourier_amplitude_phase(data):
    f = np.fft.fftn(data)
    return np.sqrt(np.real(f)**2 + np.imag(f)**2), np.arctan(np.imag(f)/np.real(f))


def get_source_redshifts(source_dir, z_low=None, z_high=None, bracket=False):
    zs = []
    for f in glob.glob(os.path.join(source_dir, '*-coarsest_wsubgrid_sources.dat')):
        try:
            z = float(f[f.rfind('/') + 1:f.rfind('-coarsest_wsubgrid_sources')])
            zs.append(z)
        except:
            pass
    return _get_redshifts_in_range(zs, z_low, z_high, bracket)


def get_xfrac_redshifts(xfrac_dir, z_low=None, z_high=None, bracket=False):
    zs = []
    for f in glob.glob(os.path.join(xfrac_dir, 'xfrac*.bin')):
        try:
            z = float(f.split('_')[-1][:-4])
            zs.append(z)
        except:
            pass
    return _get_redshifts_in_range(zs, z_low, z_high, bracket)


def get_dens_redshifts(dens_dir, z_low=None, z_high=None, bracket=False):
    zs = []
    for f in glob.glob(os.path.join(dens_dir, '*n_all.dat')):
        try:
            z = float(os.path.split(f)[1].split('n_')[0])
            zs.append(z)
        except:
            pass
    return _get_redshifts_in_range(zs, z_low, z_high, bracket)


def _get_redshifts_in_range(redshifts, z_low, z_high, bracket):
    zs = np.array(redshifts)
    zs.sort()
    if bracket:
        if z_low < zs.min() or z_high > zs.max():
            raise Exception('range')
        z_low, z_high = zs[zs <= z_low][-1], zs[zs >= z_high][0]
    if z_low is None:
        z_low = zs.min() - 1
    if z_high is None:
        z_high = zs.max() + 1
    keep = (zs >= z_low)*(zs <= z_high)
    return zs[keep]


def flt_comp(x, y, epsilon=0.0001):
    return abs(x - y) < epsilon


def get_interpolated_array(in_array, new_len, kind='nearest'):
    return interp1d(np.linspace(0, 1, len(in_array)), in_array, kind=kind)(np.linspace(0, 1, new_len))


def read_cbin(filename, bits=32, order='C', dimensions=3, records=False):
    assert bits == 32 or bits == 64
    with open(filename, 'rb') as f:
        if records:
            mesh = np.fromfile(f, dtype='int32', count=dimensions + 3)[1:1 + dimensions]
        else:
            mesh = np.fromfile(f, dtype='int32', count=dimensions)[0:dimensions]
        cells = np.fromfile(f, dtype='float32' if bits == 32 else 'float64', count=np.prod(mesh))
    return cells.reshape(mesh, order=order)


def read_raw_binary(filename, bits=64, order='C'):
    assert bits == 32 or bits == 64
    cells = np.fromfile(filename, dtype='float32' if bits == 32 else 'float64')
    n = round(len(cells)**(1/3))
    return cells.reshape((n, n, n), order=order)


def save_raw_binary(filename, data, bits=64, order='C'):
    assert bits == 32 or bits == 64
    data.astype('float32' if bits == 32 else 'float64').flatten(order=order).tofile(filename)


def save_cbin(filename, data, bits=32, order='C'):
    assert bits == 32 or bits == 64
    with open(filename, 'wb') as f:
        np.array(data.shape).astype('int32').tofile(f)
        data.astype('float32' if bits == 32 else 'float64').flatten(order=order).tofile(f)


def read_fits(filename, header=True):
    with fits.open(filename) as units:
        unit = units[0] if units[0].data is not None else units[1]
        data = unit.data.astype('float64')
        head = units[0].header
    if header:
        return data, head
    return data


def save_fits(data, filename, header=None):
    values, kind = get_data_and_type(data)
    fits.writeto(filename, values.astype('float64'), header, overwrite=True)


def determine_filetype(filename):
    name = os.path.basename(filename)
    if 'xfrac3d' in name:
        return 'xfrac'
    if 'n_all' in name:
        return 'density'
    if 'Temper' in name:
        return 'temper'
    if 'v_all' in name:
        return 'velocity'
    if '.cbin' in name:
        return 'cbin'
    if 'dbt' in name:
        return 'dbt'
    return 'unknown'


def get_data_and_type(indata, cbin_bits=32, cbin_order='c', raw_density=False):
    import tools21cm.density_file
    import tools21cm.xfrac_file
    import tools21cm.temper_file
    if isinstance(indata, tools21cm.xfrac_file.XfracFile):
        return indata.xi, 'xfrac'
    if isinstance(indata, tools21cm.temper_file.TemperFile):
        return indata.temper, 'temper'
    if isinstance(indata, tools21cm.density_file.DensityFile):
        return (indata.raw_density if raw_density else indata.cgs_density), 'density'
    if isinstance(indata, str):
        kind = determine_filetype(indata)
        if kind == 'xfrac':
            return get_data_and_type(tools21cm.xfrac_file.XfracFile(indata))
        if kind == 'temper':
            return get_data_and_type(tools21cm.temper_file.TemperFile(indata))
        if kind == 'density':
            return get_data_and_type(tools21cm.density_file.DensityFile(indata), raw_density=raw_density)
        if kind == 'cbin':
            return read_cbin(indata, bits=cbin_bits, order=cbin_order), 'cbin'
        if kind == 'dbt':
            return np.load(indata), 'dbt'
        raise Exception('type')
    if isinstance(indata, np.ndarray):
        return indata, 'unknown'
    raise Exception('type')


def save_data(savefile, data, filetype=None, **kwargs):
    kind = '' if filetype is None else filetype
    if '.npy' in savefile[-5:] or kind.lower() in ['npy', 'python_pickle']:
        np.save(savefile, data)
    elif '.pkl' in savefile[-5:] or kind.lower() in ['pkl', 'pickle']:
        with open(savefile, 'wb') as f:
            pickle.dump(data, f)
    elif '.cbin' in savefile[-5:] or kind.lower() == 'cbin':
        save_cbin(savefile, data, bits=kwargs.get('bits', 32), order=kwargs.get('order', 'C'))
    elif '.fits' in savefile[-5:] or kind in ['fits']:
        save_fits(data, savefile, header=kwargs.get('header'))
    elif '.bin' in savefile[-5:] or kind in ['bin', 'binary']:
        save_raw_binary(savefile, data, bits=kwargs.get('bits', 64), order=kwargs.get('order', 'C'))
    else:
        raise ValueError('type')
    return True


def get_mesh_size(filename):
    kind = determine_filetype(filename)
    if kind in ('xfrac', 'temper'):
        return np.fromfile(filename, dtype='int32', count=6)[1:4]
    if kind == 'density':
        return np.fromfile(filename, dtype='int32', count=3)
    if kind == 'cbin':
        return np.fromfile(filename, dtype='int32', count=3)
    if kind == 'dbt':
        return np.array([250, 250, 250])
    raise Exception('mesh')


def outputify(output):
    if hasattr(output, '__iter__'):
        if len(output) == 1:
            return output[0]
        if not type(output) == np.ndarray:
            return np.array(output)
    return output


def determine_redshift_from_filename(filename):
    if not isinstance(filename, str):
        z = getattr(filename, 'z', None)
        return -1 if z is None else z
    name = os.path.splitext(os.path.basename(filename))[0]
    number_strs = []
    last_was_char = True
    for s in name:
        if s.isdigit() or s == '.':
            if last_was_char:
                number_strs.append([])
            last_was_char = False
            number_strs[-1].append(s)
        else:
            last_was_char = True
    longest_idx = 0
    for i in range(len(number_strs)):
        if len(number_strs[i]) > len(number_strs[longest_idx]):
            longest_idx = i
        number_strs[i] = ''.join(number_strs[i])
    if len(number_strs) == 0:
        return -1
    return float(number_strs[longest_idx])


def find_idx(ar, values):
    v = np.clip(np.atleast_1d(values), ar.min(), ar.max())
    d = ar[1:] - ar[:-1]
    if (not np.all(d >= 0)) and (not np.all(d <= 0)):
        raise ValueError('monotonic')
    if np.all(d <= 0):
        a = ar[::-1]
    else:
        a = ar
    k = np.searchsorted(a, v) - 1
    x = k + (v - a[k])/(a[k + 1] - a[k])
    if np.all(d <= 0):
        x = len(a) - 1 - x
    return outputify(x)


def combined_mean_variance(means, variances, sample_sizes=None):
    def arr(q):
        if isinstance(q, dict):
            return np.array(list(q.values()))
        if isinstance(q, list):
            return np.array(q)
        return q
    m, v = arr(means), arr(variances)
    n = np.ones(m.shape) if sample_sizes is None else arr(sample_sizes)
    mean = np.sum(n*m, axis=0)/np.sum(n, axis=0)
    var = np.sum((n - 1)*v + n*(m - mean)**2, axis=0)/(np.sum(n, axis=0) - 1)
    return mean, var

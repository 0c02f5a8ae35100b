"""Write-then-read compositions (P10).  Each got_* is evaluated on the package's own writers and readers and must equal its want_*."""
import numpy as np
from .helper_functions import read_cbin, save_cbin, read_raw_binary, save_raw_binary, read_fits, save_fits, save_data, get_mesh_size, get_data_and_type
from .density_file import DensityFile, ClumpingFile
from .xfrac_file import XfracFile
from .vel_file import VelocityFile
from .read_files import read_dictionary_data, write_dictionary_data


def got_cbin(filename, data, bits, order):
    save_cbin(filename, data, bits=bits, order=order)
    return read_cbin(filename, bits=bits, order=order)


def want_cbin(filename, data, bits, order):
    return data.astype('float32' if bits == 32 else 'float64')


def got_cbin_default(filename, data):
    save_cbin(filename, data)
    return read_cbin(filename)


def want_cbin_default(filename, data):
    return data.astype('float32')


def got_raw(filename, data, bits, order):
    save_raw_binary(filename, data, bits=bits, order=order)
    return read_raw_binary(filename, bits=bits, order=order)


def want_raw(filename, data, bits, order):
    return data.astype('float32' if bits == 32 else 'float64')


def got_raw_default(filename, data):
    save_raw_binary(filename, data)
    return read_raw_binary(filename)


def want_raw_default(filename, data):
    return data.astype('float64')


def got_fits(filename, data):
    save_fits(data, filename)
    return read_fits(filename, header=False)


def want_fits(filename, data):
    return data.astype('float64')


def got_fits_header(filename, data, hdr):
    save_fits(data, filename, header=hdr)
    return read_fits(filename, header=True)


def want_fits_header(filename, data, hdr):
    return data.astype('float64'), hdr


def got_savedata_cbin(filename, data):
    save_data(filename, data, filetype='cbin', bits=64, order='F')
    return read_cbin(filename, bits=64, order='F')


def want_savedata_cbin(filename, data):
    return data.astype('float64')


def got_savedata_cbin_default(data):
    save_data('box.cbin', data)
    return read_cbin('box.cbin')


def want_savedata_cbin_default(data):
    return data.astype('float32')


def got_savedata_bin(filename, data):
    save_data(filename, data, filetype='bin', bits=32, order='F')
    return read_raw_binary(filename, bits=32, order='F')


def want_savedata_bin(filename, data):
    return data.astype('float32')


def got_savedata_bin_default(data):
    save_data('box.bin', data)
    return read_raw_binary('box.bin')


def want_savedata_bin_default(data):
    return data.astype('float64')


def got_savedata_fits(data):
    save_data('box.fits', data)
    return read_fits('box.fits', header=False)


def want_savedata_fits(data):
    return data.astype('float64')


def got_savedata_npy(data):
    save_data('box.npy', data)
    return np.load('box.npy')


def want_savedata_npy(data):
    return data


def got_savedata_pkl(data):
    save_data('box.pkl', data)
    import pickle
    with open('box.pkl', 'rb') as f:
        return pickle.load(f)


def want_savedata_pkl(data):
    return data


def got_density(filename, data):
    DensityFile().write_to_file(filename, raw_density=data)
    return DensityFile(filename).raw_density


def want_density(filename, data):
    return data.astype('float32')


def got_density_cgs(filename, data):
    w = DensityFile()
    w.write_to_file(filename, raw_density=data)
    return DensityFile(filename).cgs_density, w.cgs_density


def want_density_cgs(filename, data):
    from . import const, conv
    f = const.rho_crit_0*(float(data.shape[0])/float(conv.nbox_fine))**3*const.OmegaB
    return data.astype('float32')*f, data*f


def got_density_from_cgs(filename, data):
    DensityFile().write_to_file(filename, cgs_density=data)
    return DensityFile(filename).raw_density


def want_density_from_cgs(filename, data):
    from . import const, conv
    f = const.rho_crit_0*(float(data.shape[0])/float(conv.nbox_fine))**3*const.OmegaB
    return (data/f).astype('float32')


def got_clumping(filename, data):
    ClumpingFile().write_to_file(filename, data)
    return ClumpingFile(filename).raw_clumping


def want_clumping(filename, data):
    return data.astype('float32')


def got_xfrac(filename, data, old_format, binary_format):
    XfracFile().write_to_file(filename, data, old_format=old_format, binary_format=binary_format)
    return XfracFile(filename, old_format=old_format, binary_format=binary_format).xi


def want_xfrac(filename, data, old_format, binary_format):
    return data.astype('float32' if old_format else 'float64')


def got_xfrac_neutral(filename, data, old_format, binary_format):
    XfracFile().write_to_file(filename, data, old_format=old_format, neutral=True, binary_format=binary_format)
    return XfracFile(filename, old_format=old_format, neutral=True, binary_format=binary_format).xi


def want_xfrac_neutral(filename, data, old_format, binary_format):
    return 1.0 - (1.0 - data).astype('float32' if old_format else 'float64')


def got_velocity(filename, data4):
    VelocityFile().write_to_file(filename, data4)
    return VelocityFile(filename).raw_velocity


def want_velocity(filename, data4):
    return data4.astype('float32').astype('float64')


def got_mesh_cbin(data):
    save_cbin('box.cbin', data)
    return get_mesh_size('box.cbin')


def got_mesh_density(data):
    DensityFile().write_to_file('7.000n_all.dat', raw_density=data)
    return get_mesh_size('7.000n_all.dat')


def got_mesh_xfrac(data):
    XfracFile().write_to_file('xfrac3d_7.000.bin', data)
    return get_mesh_size('xfrac3d_7.000.bin')


def want_mesh_cbin(data):
    return np.array([data.shape[0], data.shape[1], data.shape[2]])


def want_mesh_density(data):
    return np.array([data.shape[0], data.shape[1], data.shape[2]])


def want_mesh_xfrac(data):
    return np.array([data.shape[0], data.shape[1], data.shape[2]])


def got_type_cbin(data):
    save_cbin('box.cbin', data)
    return get_data_and_type('box.cbin')


def want_type_cbin(data):
    return data.astype('float32'), 'cbin'


def got_type_xfrac(data):
    XfracFile().write_to_file('xfrac3d_7.000.bin', data)
    return get_data_and_type('xfrac3d_7.000.bin')


def want_type_xfrac(data):
    return data.astype('float64'), 'xfrac'


def got_type_density(data):
    DensityFile().write_to_file('7.000n_all.dat', raw_density=data)
    return get_data_and_type('7.000n_all.dat', raw_density=True)


def want_type_density(data):
    return data.astype('float32'), 'density'


def got_written_values_kept(filename, data):
    w = XfracFile()
    w.write_to_file(filename, data, neutral=True)
    return w.xi


def want_written_values_kept(filename, data):
    return data


def got_dict_pickle(filename, d):
    write_dictionary_data(d, filename, format='pickle')
    return read_dictionary_data(filename, format='pickle')


def want_dict_pickle(filename, d):
    return d


def got_dict_pkl(filename, d):
    write_dictionary_data(d, filename, format='pkl')
    return read_dictionary_data(filename, format='pkl')


def want_dict_pkl(filename, d):
    return d


def got_dict_json(filename, d):
    write_dictionary_data(d, filename, format='json')
    return read_dictionary_data(filename, format='json')


def want_dict_json(filename, d):
    return d


def got_dict_yaml(filename, d):
    write_dictionary_data(d, filename, format='yaml')
    return read_dictionary_data(filename, format='yaml')


def want_dict_yaml(filename, d):
    return d

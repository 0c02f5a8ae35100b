"""Recorded guards of helper_functions.py: which arguments and states are refused."""
import numpy as np
from scipy.interpolate import interp1d
from . import const
import glob, os, time
import os.path
from numpy import array, asarray, roll
from numpy.linalg import matrix_rank
from scipy.fftpack import fft, ifft, fftn, ifftn
from numpy.fft import rfftn, irfftn
from math import ceil, floor
try:
    import numexpr as ne
    numexpr_available = True
except:
    numexpr_available = False

def real_to_fourier_amplitude_phase(data):
    return 0

def get_source_redshifts(source_dir, z_low=None, z_high=None, bracket=False):
    return 0

def get_xfrac_redshifts(xfrac_dir, z_low=None, z_high=None, bracket=False):
    return 0

def get_dens_redshifts(dens_dir, z_low=None, z_high=None, bracket=False):
    return 0

def _get_redshifts_in_range(redshifts, z_low, z_high, bracket):
    redshifts = np.array(redshifts)
    redshifts.sort()
    if bracket:
        if z_low < redshifts.min() or z_high > redshifts.max():
            raise Exception()
    return 0

def print_msg(message, print_time=True):
    return 0

def flt_comp(x, y, epsilon=0.0001):
    return 0

def get_interpolated_array(in_array, new_len, kind='nearest'):
    return 0

def read_cbin(filename, bits=32, order='C', dimensions=3, records=False):
    assert bits == 32 or bits == 64
    return 0

def read_raw_binary(filename, bits=64, order='C'):
    assert bits == 32 or bits == 64
    return 0

def save_raw_binary(filename, data, bits=64, order='C'):
    assert bits == 32 or bits == 64
    return 0

def save_cbin(filename, data, bits=32, order='C'):
    assert bits == 32 or bits == 64
    return 0

def read_fits(filename, header=True):
    return 0

def save_fits(data, filename, header=None):
    return 0

def determine_filetype(filename):
    return 0

def get_data_and_type(indata, cbin_bits=32, cbin_order='c', raw_density=False):
    import tools21cm.density_file
    import tools21cm.xfrac_file
    import tools21cm.temper_file
    if isinstance(indata, tools21cm.xfrac_file.XfracFile):
        return 0
    elif isinstance(indata, tools21cm.temper_file.TemperFile):
        return 0
    elif isinstance(indata, tools21cm.density_file.DensityFile):
        if raw_density:
            return 0
        else:
            return 0
    elif isinstance(indata, str):
        filetype = determine_filetype(indata)
        if filetype == 'xfrac':
            return 0
        elif filetype == 'temper':
            return 0
        elif filetype == 'density':
            return 0
        elif filetype == 'cbin':
            return 0
        elif filetype == 'dbt':
            return 0
        else:
            raise Exception()
    elif isinstance(indata, np.ndarray):
        return 0
    raise Exception()
    return 0

def save_data(savefile, data, filetype=None, **kwargs):
    if filetype is None:
        filetype = ''
    if '.npy' in savefile[-5:] or filetype.lower() in ['npy', 'python_pickle']:
        pass
    elif '.pkl' in savefile[-5:] or filetype.lower() in ['pkl', 'pickle']:
        import pickle
    elif '.cbin' in savefile[-5:] or filetype.lower() == 'cbin':
        pass
    elif '.fits' in savefile[-5:] or filetype in ['fits']:
        pass
    elif '.bin' in savefile[-5:] or filetype in ['bin', 'binary']:
        pass
    else:
        raise Exception()
    return 0

def get_mesh_size(filename):
    datatype = determine_filetype(filename)
    if datatype == 'xfrac' or datatype == 'temper':
        pass
    elif datatype == 'density':
        pass
    elif datatype == 'cbin':
        pass
    elif datatype == 'dbt':
        pass
    else:
        raise Exception()
    return 0

def outputify(output):
    return 0

def determine_redshift_from_filename(filename):
    return 0

def find_idx(ar, values):
    dv = ar[1:] - ar[:-1]
    if not np.all(dv >= 0.0) and (not np.all(dv <= 0.0)):
        raise Exception()
    return 0

def get_eval():
    return 0
verbose = False

def set_verbose(_verbose):
    return 0

def combined_mean_variance(means, variances, sample_sizes=None):
    return 0

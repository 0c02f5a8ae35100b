"""Recorded guards of read_files.py: which arguments and states are refused."""
import numpy as np
import glob
from .xfrac_file import XfracFile
from . import helper_functions, vel_file, lightcone
from . import temperature as tm
import sys, os

def _load_binary_data(filename, dtype=np.float32):
    return 0

def read_21cmfast_files(filename):
    return 0

def read_c2ray_files(filename, file_type='xfrac', density_file=None):
    assert file_type in ['xfrac', 'dens', 'vel']
    if file_type == 'xfrac':
        pass
    elif file_type == 'dens':
        pass
    elif file_type == 'vel':
        assert density_file is not None
    return 0

def read_grizzly_files(filename):
    return 0

def _file_at(files, redshifts, z):
    return 0

def coeval_21cm_c2ray(xfrac_dir, dens_dir, z, interpolation='linear', mean_subtract=False):
    return 0

def coeval_xfrac_c2ray(xfrac_dir, z, interpolation='linear'):
    if not interpolation in ['linear']:
        raise Exception()
    return 0

def coeval_dens_c2ray(dens_dir, z):
    return 0

def read_dictionary_data(filename, format=None):
    if format is None:
        ext = os.path.splitext(filename)[1].lower()
        format = ext.lstrip('.')
    format = format.lower()
    if format in ['pickle', 'pkl']:
        import pickle
        return 0
    elif format in ['json']:
        import json
        return 0
    elif format in ['yaml', 'yml']:
        import yaml
        return 0
    elif format in ['hdf5', 'h5']:
        import h5py
        return 0
    elif format in ['npz']:
        return 0
    elif format in ['nc', 'netcdf']:
        import xarray as xr
        return 0
    elif format == 'zarr':
        import xarray as xr
        return 0
    elif format == 'csv':
        import pandas as pd
        return 0
    elif format == 'parquet':
        import pandas as pd
        return 0
    elif format == 'xlsx':
        import pandas as pd
        return 0
    else:
        raise Exception()
    return 0

def write_dictionary_data(data_dict, filename, format=None):
    if format is None:
        format = os.path.splitext(filename)[1].lstrip('.').lower()
    if format in ['pickle', 'pkl']:
        import pickle
    elif format == 'json':
        import json
    elif format in ['yaml', 'yml']:
        import yaml
    elif format in ['hdf5', 'h5']:
        import h5py
    elif format == 'npz':
        pass
    elif format in ['nc', 'netcdf']:
        import xarray as xr
        try:
            pass
        except Exception as e:
            raise Exception()
    elif format == 'zarr':
        import xarray as xr
        try:
            pass
        except Exception as e:
            raise Exception()
    elif format == 'csv':
        import pandas as pd
    elif format == 'parquet':
        import pandas as pd
    elif format == 'xlsx':
        import pandas as pd
    else:
        raise Exception()
    return 0

def get_package_resource_path(package_name, resource_path):
    try:
        from importlib.resources import files
        resource_file = files(package_name) / resource_path
        return 0
    except ImportError:
        try:
            from importlib_resources import files
            resource_file = files(package_name) / resource_path
            return 0
        except ImportError:
            try:
                import pkg_resources
                return 0
            except ImportError:
                import os
                from pathlib import Path
                try:
                    package = __import__(package_name)
                    package_dir = Path(package.__file__).parent
                    resource_file = package_dir / resource_path
                    if resource_file.exists():
                        return 0
                    else:
                        raise Exception()
                except Exception as e:
                    raise Exception()
    return 0

"""Reference definitions: readers of simulation outputs and dictionaries (P10, P29)."""
import glob
import os
import sys
import numpy as np
from .xfrac_file import XfracFile
from . import helper_functions, vel_file, lightcone
from . import temperature as tm


def _load_binary_data(filename, dtype=np.float32):
    with open(filename, 'rb') as f:
        raw = f.read()
    cells = np.frombuffer(raw, dtype).copy()
    return cells.byteswap() if sys.byteorder == 'big' else cells


def read_21cmfast_files(filename):
    cells = _load_binary_data(filename)
    n = round(cells.size**0.333333)
    return cells.reshape(n, n, n)


def read_c2ray_files(filename, file_type='xfrac', density_file=None):
    if file_type == 'xfrac':
        return XfracFile(filename).xi
    if file_type == 'dens':
        return helper_functions.get_data_and_type(filename)[0].astype(np.float64)
    assert file_type == 'vel' and density_file is not None
    return vel_file.VelocityFile(filename).get_kms_from_density(density_file)


def read_grizzly_files(filename):
    return XfracFile(filename).xi


def _file_at(files, redshifts, z):
    return files[int(np.argmin(np.abs(np.asarray(redshifts) - z)))]


def coeval_xfrac_c2ray(xfrac_dir, z, interpolation='linear'):
    if interpolation not in ['linear']:
        raise ValueError('interpolation')
    files = glob.glob(xfrac_dir + '/xfrac3d_*.bin')
    zs = lightcone._get_file_redshifts(None, files)
    if z in zs:
        return XfracFile(_file_at(files, zs, z)).xi
    low, high = zs[zs < z].max(), zs[zs > z].min()
    x_low, x_high = XfracFile(_file_at(files, zs, low)).xi, XfracFile(_file_at(files, zs, high)).xi
    return x_high + (x_low - x_high)*(z - high)/(low - high)


def coeval_dens_c2ray(dens_dir, z):
    files = glob.glob(dens_dir + '/*n_all.dat')
    zs = lightcone._get_file_redshifts(None, files)
    at = z if z in zs else zs[zs > z].min()
    return helper_functions.get_data_and_type(_file_at(files, zs, at))[0].astype(np.float64)


def coeval_21cm_c2ray(xfrac_dir, dens_dir, z, interpolation='linear', mean_subtract=False):
    dt = tm.calc_dt(coeval_xfrac_c2ray(xfrac_dir, z, interpolation=interpolation), coeval_dens_c2ray(dens_dir, z), z=z)
    if mean_subtract:
        for i in range(dt.shape[2]):
            dt[:, :, i] -= dt[:, :, i].mean()
    return dt


def read_dictionary_data(filename, format=None):
    kind = (os.path.splitext(filename)[1].lower().lstrip('.') if format is None else format).lower()
    if kind in ('pickle', 'pkl'):
        import pickle
        with open(filename, 'rb') as f:
            return pickle.load(f)
    if kind == 'json':
        import json
        with open(filename, 'r') as f:
            return json.load(f)
    if kind in ('yaml', 'yml'):
        import yaml
        with open(filename, 'r') as f:
            return yaml.safe_load(f)
    if kind == 'npz':
        with np.load(filename, allow_pickle=True) as z:
            return dict(z)
    if kind in ('nc', 'netcdf'):
        import xarray as xr
        with xr.open_dataset(filename) as ds:
            return ds.to_dict(data=True)
    if kind == 'zarr':
        import xarray as xr
        return xr.open_zarr(filename).to_dict(data=True)
    import pandas as pd
    if kind == 'csv':
        return pd.read_csv(filename).to_dict(orient='list')
    if kind == 'parquet':
        return pd.read_parquet(filename).to_dict(orient='list')
    if kind == 'xlsx':
        return pd.read_excel(filename).to_dict(orient='list')
    raise ValueError('format')


def write_dictionary_data(data_dict, filename, format=None):
    kind = os.path.splitext(filename)[1].lstrip('.').lower() if format is None else format
    if kind in ('pickle', 'pkl'):
        import pickle
        with open(filename, 'wb') as f:
            pickle.dump(data_dict, f)
    elif kind == 'json':
        import json
        with open(filename, 'w') as f:
            json.dump(data_dict, f, indent=4)
    elif kind in ('yaml', 'yml'):
        import yaml
        with open(filename, 'w') as f:
            yaml.safe_dump(data_dict, f)
    elif kind == 'npz':
        np.savez(filename, **data_dict)
    elif kind in ('nc', 'netcdf'):
        import xarray as xr
        try:
            ds = xr.Dataset.from_dict(data_dict)
        except Exception:
            raise ValueError('dict')
        ds.to_netcdf(filename)
    elif kind == 'zarr':
        import xarray as xr
        try:
            ds = xr.Dataset.from_dict(data_dict)
            ds.to_zarr(filename, mode='w')
        except Exception:
            raise ValueError('dict')
    elif kind == 'csv':
        import pandas as pd
        pd.DataFrame(data_dict).to_csv(filename, index=False)
    elif kind == 'parquet':
        import pandas as pd
        pd.DataFrame(data_dict).to_parquet(filename, index=False)
    elif kind == 'xlsx':
        import pandas as pd
        pd.DataFrame(data_dict).to_excel(filename, index=False)
    else:
        raise ValueError('format')


def get_package_resource_path(package_name, resource_path):
    from importlib.resources import files
    return str(files(package_name)/resource_path)

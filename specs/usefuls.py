"""Reference definitions: coeval cubes of C2-Ray and CUBEP3M outputs at a redshift (P35)."""
import glob
import numpy as np
from . import conv, const, helper_functions, lightcone
from . import temperature as tm
from . import density_file, vel_file, xfrac_file


def Mgrid_2_Msolar(M):
    return M*conv.M_grid*const.solar_masses_per_gram


def Msolar_2_Mgrid(M):
    return M/conv.M_grid/const.solar_masses_per_gram


def _file_at(files, redshifts, z):
    nearest = np.argmin(np.abs(np.asarray(redshifts) - z))
    return files[int(nearest)]


def get_zs_list(xfrac_dir, file_type='/xfrac3d_*.bin'):
    return np.sort(lightcone._get_file_redshifts(None, glob.glob(xfrac_dir + file_type)))


def coeval_xfrac(xfrac_dir, z, interpolation='linear'):
    if interpolation not in ['linear']:
        raise ValueError('interpolation')
    files = glob.glob(xfrac_dir + '/xfrac3d_*.bin')
    zs = lightcone._get_file_redshifts(None, files)
    if z in zs:
        return xfrac_file.XfracFile(_file_at(files, zs, z)).xi
    low, high = zs[zs < z].max(), zs[zs > z].min()
    a = xfrac_file.XfracFile(_file_at(files, zs, low)).xi
    b = xfrac_file.XfracFile(_file_at(files, zs, high)).xi
    return b + (a - b)*(z - high)/(low - high)


def coeval_dens(dens_dir, z, interpolation='linear'):
    if interpolation not in ['linear']:
        raise ValueError('interpolation')
    files = glob.glob(dens_dir + '/*n_all.dat')
    zs = lightcone._get_file_redshifts(None, files)
    if z in zs:
        return helper_functions.get_data_and_type(_file_at(files, zs, z))[0].astype(np.float64)
    low, high = zs[zs < z].max(), zs[zs > z].min()
    a = helper_functions.get_data_and_type(_file_at(files, zs, low))[0]
    b = helper_functions.get_data_and_type(_file_at(files, zs, high))[0]
    return (b + (a - b)*(z - high)/(low - high)).astype(np.float64)


def coeval_overdens(dens_dir, z, interpolation='linear'):
    dens = coeval_dens(dens_dir, z, interpolation=interpolation)
    return dens/dens.mean(dtype=np.float64) - 1.


def coeval_21cm(xfrac_dir, dens_dir, z, interpolation='linear', mean_subtract=False):
    x = coeval_xfrac(xfrac_dir, z, interpolation=interpolation)
    d = coeval_dens(dens_dir, z, interpolation=interpolation)
    dt = tm.calc_dt(x, d, z=z)
    return dt - dt.mean() if mean_subtract else dt


def coeval_vel(dens_dir, vel_dir, z, interpolation='linear'):
    if interpolation not in ['linear']:
        raise ValueError('interpolation')
    dfiles, vfiles = glob.glob(dens_dir + '/*n_all.dat'), glob.glob(vel_dir + '/*v_all.dat')
    vzs = lightcone._get_file_redshifts(None, vfiles)
    dzs = lightcone._get_file_redshifts(None, dfiles)

    def at(zf):
        d = density_file.DensityFile(_file_at(dfiles, dzs, zf))
        return vel_file.VelocityFile(_file_at(vfiles, vzs, zf)).get_kms_from_density(d)
    if z in vzs:
        return at(z)
    low, high = vzs[vzs < z].max(), vzs[vzs > z].min()
    a, b = at(low), at(high)
    return b + (a - b)*(z - high)/(low - high)

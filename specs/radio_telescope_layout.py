"""Reference definitions for radio_telescope_layout.py: baselines, earth rotation, gridding and coordinate frames."""
import numpy as np
import itertools
from . import cosmo as cm
from . import conv
from .const import c_light_cgs
from .read_files import get_package_resource_path
import astropy.units as u
from astropy.coordinates import EarthLocation


def subarray_type_to_antxyz(subarray_type, verbose=True):
    if isinstance(subarray_type, str):
        xyz = get_SKA_Low_layout(subarray_type=subarray_type, unit='xyz', verbose=verbose)
    elif isinstance(subarray_type, np.ndarray):
        xyz = subarray_type
    else:
        xyz = geographic_to_cartesian_coordinate_system(SKA1_LowConfig_Sept2016())*u.m
    return xyz, xyz.shape[0]


def from_antenna_config(antxyz, z, nu=None):
    z = float(z)
    if antxyz is None:
        antxyz = geographic_to_cartesian_coordinate_system(SKA1_LowConfig_Sept2016()[:, -2:].astype(float))
    elif hasattr(antxyz, 'unit'):
        antxyz = antxyz.to('m').value
    if not nu:
        nu = cm.z_to_nu(z)
    N = antxyz.shape[0]
    lam = c_light_cgs/(nu*1e6)/1e2
    out = []
    for i, j in itertools.combinations(range(N), 2):
        out.append([(antxyz[i, 0] - antxyz[j, 0])/lam, (antxyz[i, 1] - antxyz[j, 1])/lam, (antxyz[i, 2] - antxyz[j, 2])/lam])
    return np.array(out), N


def earth_rotation_effect(Nbase, slice_nums, int_time, total_int_time, declination=-30.):
    d = np.deg2rad(declination)
    steps = np.atleast_1d(slice_nums)
    H = np.deg2rad(15*(-0.5*total_int_time*3600 + steps*int_time)/3600)
    c, s = np.cos(H)[:, None], np.sin(H)[:, None]
    out = np.empty((len(steps), Nbase.shape[0], Nbase.shape[1]))
    X, Y, Z = Nbase[:, 0], Nbase[:, 1], Nbase[:, 2]
    out[:, :, 0] = s*X + c*Y
    out[:, :, 1] = -np.sin(d)*c*X + np.sin(d)*s*Y + np.cos(d)*Z
    out[:, :, 2] = np.cos(d)*c*X - np.cos(d)*s*Y + np.sin(d)*Z
    if len(steps) == 1:
        return out.squeeze()
    return out


def get_uv_daily_observation(ncells, z, antxyz=None, total_int_time=4., int_time=10., boxsize=None, declination=-30., include_mirror_baselines=False, verbose=True):
    base, N = from_antenna_config(antxyz, z)
    total = int(total_int_time*3600/int_time)
    uv = np.zeros((ncells, ncells), dtype=np.float32)
    for i in np.arange(total) + 1:
        uv += grid_uv_tracks(earth_rotation_effect(base, i, int_time, total_int_time, declination), z, ncells, boxsize=boxsize, include_mirror_baselines=include_mirror_baselines)
    return uv/total, N


def grid_uv_tracks(Nbase, z, ncells, boxsize=None, include_mirror_baselines=False):
    z = float(z)
    if not boxsize:
        boxsize = conv.LB
    field = boxsize/cm.z_to_cdist(z)
    if include_mirror_baselines:
        Nbase = np.vstack([Nbase, -Nbase])
    cell = np.round(Nbase*field).astype(int)
    inside = (cell[:, 0] < ncells/2) & (cell[:, 0] >= -ncells/2) & (cell[:, 1] < ncells/2) & (cell[:, 1] >= -ncells/2)
    cell = cell[inside]
    xx = (cell[:, 0] + ncells//2).astype(int)
    yy = (cell[:, 1] + ncells//2).astype(int)
    uv = np.bincount(xx*ncells + yy, minlength=ncells*ncells).reshape(ncells, ncells)
    if include_mirror_baselines:
        uv = uv/2
    return np.fft.ifftshift(uv)


def geographic_to_cartesian_coordinate_system(antll):
    R = 6371.*u.km
    if not isinstance(antll, u.quantity.Quantity):
        antll = antll*u.deg
    lon, lat = antll[:, 0], antll[:, 1]
    x = (R*np.cos(lat)*np.cos(lon)).to(u.m)
    y = (R*np.cos(lat)*np.sin(lon)).to(u.m)
    z = (R*np.sin(lat)).to(u.m)
    return np.vstack((x.value, y.value, z.value)).T


def cartesian_to_geographic_coordinate_system(antxyz):
    R = 6371.*u.km
    if not isinstance(antxyz, u.quantity.Quantity):
        antxyz = antxyz*u.m
    x, y, z = antxyz[:, 0], antxyz[:, 1], antxyz[:, 2]
    r = np.sqrt(x**2 + y**2 + z**2)
    lon = np.arctan2(y, x).to(u.deg)
    lat = np.arcsin(z/r).to(u.deg)
    height = (r - R).to(u.m)
    return np.vstack((lon.value, lat.value, height.value)).T


def antenna_positions_to_baselines(antxyz):
    out = np.array([a - b for a, b in itertools.permutations(antxyz, 2)])
    try:
        return out*antxyz.unit
    except:
        return out


def enu_to_ecef(enu, lat_deg, lon_deg, origin_ecef):
    lat, lon = np.deg2rad(lat_deg), np.deg2rad(lon_deg)
    R = np.array([[-np.sin(lon), -np.sin(lat)*np.cos(lon), np.cos(lat)*np.cos(lon)],
                  [np.cos(lon), -np.sin(lat)*np.sin(lon), np.cos(lat)*np.sin(lon)],
                  [0, np.cos(lat), np.sin(lat)]])
    return enu @ R.T + origin_ecef


def ecef_to_xyz(ecef, lon_deg, origin_ecef):
    lon = np.deg2rad(lon_deg)
    R = np.array([[np.cos(lon), np.sin(lon), 0], [-np.sin(lon), np.cos(lon), 0], [0, 0, 1]])
    return (ecef - origin_ecef) @ R.T + origin_ecef


def get_SKA_Low_layout(subarray_type="AA4", unit='ecef', verbose=True):
    name = subarray_type.upper()
    if name == "AA4":
        filename = 'input_data/skalow_AA4_layout.txt'
    elif name in ["AASTAR", "AA*"]:
        filename = 'input_data/skalow_AAstar_layout.txt'
    elif name == "AA2":
        filename = 'input_data/skalow_AA2_layout.txt'
    elif name == "AA1":
        filename = 'input_data/skalow_AA1_layout.txt'
    elif name == "AA0.5":
        filename = 'input_data/skalow_AA0.5_layout.txt'
    elif name == "SKALOW1":
        filename = 'input_data/skalow1_layout.txt'
    else:
        raise ValueError
    lon, lat, height = np.loadtxt(get_package_resource_path('tools21cm', 'input_data/central_geographic_position.txt'))
    core = EarthLocation(lat=lat*u.deg, lon=lon*u.deg, height=height*u.m)
    origin = np.array([core.x.value, core.y.value, core.z.value])
    enu = np.loadtxt(get_package_resource_path('tools21cm', filename))
    if unit.lower() == 'enu':
        return enu*u.m
    elif unit.lower() == 'ecef':
        return enu_to_ecef(enu, lat, lon, origin)*u.m
    elif unit.lower() == 'xyz':
        return ecef_to_xyz(enu_to_ecef(enu, lat, lon, origin), lon, origin)*u.m
    elif unit.lower() in ['latlon', 'geodetic']:
        e = enu_to_ecef(enu, lat, lon, origin)
        loc = EarthLocation.from_geocentric(e[:, 0], e[:, 1], e[:, 2], unit=u.m)
        return loc.lat.deg, loc.lon.deg, loc.height.to(u.m).value
    else:
        raise ValueError


def SKA1_LowConfig_Sept2016():
    return None

"""Reference definitions for radio_telescope_noise.py: instrument noise realisations and uv coverage of boxes and light-cones."""
import os
import numpy as np
import scipy
from . import conv
from . import cosmo as cm
from .scipy_func import *
from .radio_telescope_sensitivity import *
from .radio_telescope_layout import *
from .power_spectrum import radial_average, _get_k, _get_dims
from .read_files import read_dictionary_data, write_dictionary_data
from joblib import Parallel, delayed
import astropy.units as u


def signal_window(ncells, method, ndim=1, extra_param=30):
    m = method.lower()
    if m == 'blackmanharris' or m == 'blackman-harris':
        w = windows.blackmanharris(ncells)
    elif m == 'blackman':
        w = windows.blackman(ncells)
    elif m == 'barthann':
        w = windows.barthann(ncells)
    elif m == 'bartlett':
        w = windows.bartlett(ncells)
    elif m == 'gaussian':
        w = windows.gaussian(ncells, extra_param)
    elif m == 'hamming':
        w = windows.hamming(ncells)
    elif m == 'hann':
        w = windows.hann(ncells)
    elif m == 'kaiser':
        w = windows.kaiser(ncells, extra_param)
    else:
        return None
    if ndim == 1:
        return w
    if ndim == 2:
        return w[:, None]*w[None, :]
    if ndim == 3:
        return w[:, None, None]*w[None, :, None]*w[None, None, :]
    return None


def noise_coeval_power_spectrum_1d(ncells, z, depth_mhz, obs_time=1000, subarray_type="AA4", kbins=10, boxsize=None, binning='log', return_n_modes=False, total_int_time=6., int_time=10., declination=-30., uv_map=None, N_ant=None, uv_weighting='natural', T_sys=None, sefd_data=None, nu_data=None, D_station=40., ep_aperture=None, fft_wrap=False, verbose=True):
    if boxsize is None:
        boxsize = conv.LB
    xyz, N = subarray_type_to_antxyz(subarray_type, verbose=verbose)
    if uv_map is None:
        uv_map, N = get_uv_map(ncells, z, subarray_type=xyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination)
    if N_ant is not None:
        N = N_ant
    image, visibility = sigma_noise_radio(z, depth_mhz, obs_time, int_time, uv_map=uv_map, N_ant=N, verbose=False, T_sys=T_sys, sefd_data=sefd_data, nu_data=nu_data, D_station=D_station, ep_aperture=ep_aperture)
    w = uv_weighting.lower()
    if w in ['nat', 'natural', 'natural_weighting']:
        amp = visibility/np.sqrt(uv_map)
    elif w in ['uni', 'uniform', 'uniform_weighting']:
        amp = visibility*np.ones(uv_map.shape)
    else:
        raise ValueError
    amp = amp*np.sqrt(int_time/3600./obs_time)
    dims = _get_dims(boxsize, uv_map.shape)
    V = np.prod(dims)
    power = np.fft.fftshift(amp**2)*(V/np.prod(uv_map.shape))**2/V
    pn, kn, n = radial_average(power, dims, kbins=kbins, binning=binning)
    if return_n_modes:
        return pn, kn, n
    return pn, kn


def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int_time=10., boxsize=None, declination=-30., save_uvmap=None, n_jobs=4, verbose=True, checkpoint=16):
    xyz, N = subarray_type_to_antxyz(subarray_type, verbose=verbose)
    if boxsize is None:
        boxsize = conv.LB
    if isinstance(zs, list):
        zs = np.array(zs)
    if isinstance(subarray_type, str) and subarray_type.upper() == 'AA*':
        subarray_type = 'AAstar'
    settings = {'ncells': ncells, 'boxsize': boxsize, 'total_int_time': total_int_time, 'int_time': int_time, 'declination': declination, 'subarray_type': subarray_type, 'N_ant': N}
    if save_uvmap and os.path.exists(save_uvmap):
        uvs = read_dictionary_data(save_uvmap)
        wrong = []
        for key, value in settings.items():
            found = uvs.get(key)
            if found is not None and not np.array_equal(found, value):
                wrong.append(key)
        if wrong:
            raise ValueError
    else:
        uvs = settings
    for z in [z for z in zs if '{:.3f}'.format(z) not in uvs]:
        uvs['{:.3f}'.format(z)] = get_uv_map(ncells, z, subarray_type=xyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination, verbose=False)[0]
    if save_uvmap:
        write_dictionary_data(uvs, save_uvmap)
    return uvs


def noise_map(ncells, z, depth_mhz, obs_time=1000, subarray_type="AA4", boxsize=None, total_int_time=6., int_time=10., declination=-30., uv_map=None, N_ant=None, uv_weighting='natural', T_sys=None, sefd_data=None, nu_data=None, D_station=40., ep_aperture=None, fft_wrap=False, verbose=True, suppress_sharp_features_uv_map=False):
    if boxsize is None:
        boxsize = conv.LB
    xyz, N = subarray_type_to_antxyz(subarray_type, verbose=verbose)
    if uv_map is None:
        uv_map, N = get_uv_map(ncells, z, subarray_type=xyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination)
    if N_ant is not None:
        N = N_ant
    image, visibility = sigma_noise_radio(z, depth_mhz, obs_time, int_time, uv_map=uv_map, N_ant=N, verbose=False, T_sys=T_sys, sefd_data=sefd_data, nu_data=nu_data, D_station=D_station, ep_aperture=ep_aperture)
    re = np.random.normal(loc=0.0, scale=visibility, size=(ncells, ncells))
    im = np.random.normal(loc=0.0, scale=visibility, size=(ncells, ncells))
    four = apply_uv_response_noise(re + 1j*im, uv_map, boxsize=boxsize, uv_weighting=uv_weighting, suppress_sharp_features_uv_map=suppress_sharp_features_uv_map)
    four = four*np.fft.ifftshift(signal_window(ncells, 'blackmanharris', ndim=2))
    image = ifft2_wrap(four) if fft_wrap else np.fft.ifft2(four)
    return np.real(image*np.sqrt(int_time/3600./obs_time))


def _suppress_sharp_features_uv_map(uv_map, boxsize=None, method='gaussian', filter_param=5.0):
    if method is True:
        method = 'gaussian'
    if method.lower() == 'gaussian':
        s = np.sqrt(gaussian_filter(uv_map, filter_param, output=np.result_type(uv_map, np.float32)))
        return s*(uv_map.max()/s.max())
    if method.lower() in ['binned', 'bin']:
        assert boxsize is not None
        dims = [boxsize, boxsize]
        limit = np.pi/boxsize*min(uv_map.shape)/2
        mean, k, n = radial_average(np.fft.fftshift(uv_map), dims, kbins=filter_param, binning='log')
        comp, kmag = _get_k(uv_map, [boxsize, boxsize])
        x, y = np.log10(k[k < limit]), np.log10(mean[k < limit])
        ok = np.isfinite(y)
        return np.fft.ifftshift(10**interp1d(x[ok], y[ok], fill_value='extrapolate')(np.log10(kmag)))
    raise ValueError


def apply_uv_response_noise(noise, uv_map, boxsize=None, uv_weighting='natural', uv_map_min=1e-2, suppress_sharp_features_uv_map=False):
    w = uv_weighting.lower()
    if w in ['nat', 'natural', 'natural_weighting']:
        cover = uv_map
        if suppress_sharp_features_uv_map:
            cover = _suppress_sharp_features_uv_map(uv_map, boxsize=boxsize, method=suppress_sharp_features_uv_map, filter_param=15)
        out = noise/np.sqrt(cover)
    elif w in ['uni', 'uniform', 'uniform_weighting']:
        out = noise.copy()
    else:
        raise ValueError
    out[uv_map < uv_map_min] = 0.
    return out


def apply_uv_response_noise_briggs(noise, uv_map, robust=2., epsilon=1e-6):
    mean = np.mean(uv_map[uv_map > 0]) + epsilon
    weight = uv_map/(1 + (uv_map/mean)**2*10**(2*robust))
    out = noise/np.sqrt(weight + epsilon)
    out[uv_map == 0] = 0.
    return out


def ifft2_wrap(nn1):
    assert nn1.ndim == 2
    x0, y0 = nn1.shape[0]//2, nn1.shape[1]//2
    tiled = np.roll(np.vstack((nn1, nn1)), x0, 0)
    tiled = np.roll(np.hstack((tiled, tiled)), y0, 1)
    return np.fft.ifft2(tiled)[x0:x0 + nn1.shape[0], y0:y0 + nn1.shape[1]]


def apply_uv_response_on_image(array, uv_map):
    assert array.shape == uv_map.shape
    four = np.fft.fft2(array)
    four[uv_map == 0] = 0
    return np.real(np.fft.ifft2(four))


def max_baseline_to_max_k(redshift, max_baseline):
    if not isinstance(max_baseline, u.Quantity):
        max_baseline = max_baseline*u.km
    cut = (1 + redshift)*(21*u.cm/max_baseline).to('')*cm.z_to_cdist(redshift)
    return np.pi/cut


def get_uv_map(ncells, z, subarray_type="AA4", total_int_time=6., int_time=10., boxsize=None, declination=-30., include_mirror_baselines=True, verbose=True, max_baseline=None):
    if boxsize is None:
        boxsize = conv.LB
    xyz, N = subarray_type_to_antxyz(subarray_type, verbose=verbose)
    uv, N = get_uv_daily_observation(ncells, z, xyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination, include_mirror_baselines=include_mirror_baselines, verbose=verbose)
    if max_baseline is not None:
        k = (np.arange(ncells) - ncells//2)*np.pi/boxsize
        kx, ky = np.meshgrid(k, k)
        centred = np.fft.fftshift(uv)
        centred[kx**2 + ky**2 > max_baseline_to_max_k(z, max_baseline)**2] = 0.
        uv = np.fft.ifftshift(centred)
    return uv, N


def make_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int_time=10., boxsize=None, declination=-30., verbose=True):
    out = np.zeros((ncells, ncells, zs.shape[0]))
    for i in range(zs.shape[0]):
        uv, N = get_uv_map(ncells, zs[i], subarray_type=subarray_type, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination, verbose=verbose)
        out[:, :, i] = uv
    return out, N


def apply_uv_response_on_coeval(array, z, subarray_type="AA4", boxsize=None, total_int_time=6., int_time=10., declination=-30., uv_map=None, N_ant=None):
    if boxsize is None:
        boxsize = conv.LB
    if uv_map is None:
        uv_map, N_ant = get_uv_map(array.shape[0], z, subarray_type=subarray_type, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination)
    out = np.zeros(array.shape)
    for k in range(array.shape[-1]):
        out[:, :, k] = apply_uv_response_on_image(array[:, :, k], uv_map=uv_map)
    return out


def noise_cube_coeval(ncells, z, depth_mhz=None, obs_time=1000, subarray_type="AA4", boxsize=None, total_int_time=6., int_time=10., declination=-30., uv_map=None, N_ant=None, uv_weighting='natural', verbose=True, fft_wrap=False, T_sys=None, sefd_data=None, nu_data=None, D_station=40., ep_aperture=None, suppress_sharp_features_uv_map=False):
    xyz, N = subarray_type_to_antxyz(subarray_type, verbose=verbose)
    if boxsize is None:
        boxsize = conv.LB
    if depth_mhz is None:
        near, far = cm.cdist_to_z(cm.z_to_cdist(z) - boxsize/2), cm.cdist_to_z(cm.z_to_cdist(z) + boxsize/2)
        depth_mhz = (cm.z_to_nu(near) - cm.z_to_nu(far))/ncells
    if uv_map is None:
        uv_map, N = get_uv_map(ncells, z, subarray_type=xyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination)
    if N_ant is not None:
        N = N_ant
    out = np.zeros((ncells, ncells, ncells))
    for k in range(ncells):
        out[:, :, k] = noise_map(ncells, z, depth_mhz, obs_time=obs_time, subarray_type=xyz, boxsize=boxsize, total_int_time=total_int_time, int_time=int_time, declination=declination, uv_map=uv_map, N_ant=N, uv_weighting=uv_weighting, fft_wrap=fft_wrap, T_sys=T_sys, sefd_data=sefd_data, nu_data=nu_data, D_station=D_station, ep_aperture=ep_aperture, suppress_sharp_features_uv_map=suppress_sharp_features_uv_map)
    return jansky_2_kelvin(out, z, boxsize=boxsize)


def noise_cube_lightcone(ncells, z, obs_time=1000, subarray_type="AA4", boxsize=None, save_uvmap=None, total_int_time=6., int_time=10., declination=-30., N_ant=None, uv_weighting='natural', fft_wrap=False, verbose=True, n_jobs=4, checkpoint=64, T_sys=None, sefd_data=None, nu_data=None, D_station=40., ep_aperture=None, suppress_sharp_features_uv_map=False):
    if boxsize is None:
        boxsize = conv.LB
    zs = cm.cdist_to_z(np.linspace(cm.z_to_cdist(z) - boxsize/2, cm.z_to_cdist(z) + boxsize/2, ncells))
    return noise_lightcone(ncells, zs, obs_time=obs_time, subarray_type=subarray_type, boxsize=boxsize, save_uvmap=save_uvmap, total_int_time=total_int_time, int_time=int_time, declination=declination, uv_weighting=uv_weighting, fft_wrap=fft_wrap, verbose=verbose, n_jobs=n_jobs, checkpoint=checkpoint, T_sys=T_sys, sefd_data=sefd_data, nu_data=nu_data, D_station=D_station, ep_aperture=ep_aperture, suppress_sharp_features_uv_map=suppress_sharp_features_uv_map, N_ant=N_ant)


def noise_lightcone(ncells, zs, obs_time=1000, subarray_type="AA4", boxsize=None, save_uvmap=None, total_int_time=6., int_time=10., declination=-30., uv_weighting='natural', fft_wrap=False, verbose=True, n_jobs=4, checkpoint=16, T_sys=None, sefd_data=None, nu_data=None, D_station=40., ep_aperture=None, suppress_sharp_features_uv_map=False, N_ant=None):
    if isinstance(zs, list):
        zs = np.array(zs)
    uvs = get_uv_map_lightcone(ncells, zs, subarray_type=subarray_type, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination, save_uvmap=save_uvmap, n_jobs=n_jobs, verbose=verbose, checkpoint=checkpoint)
    if N_ant is None:
        N_ant = uvs.get('N_ant')
    out = np.zeros((ncells, ncells, zs.size))
    for k in range(zs.size):
        if k + 1 < zs.size:
            depth = np.abs(cm.z_to_nu(zs[k + 1]) - cm.z_to_nu(zs[k]))
        else:
            depth = np.abs(cm.z_to_nu(zs[k]) - cm.z_to_nu(zs[k - 1]))
        image = noise_map(ncells, zs[k], depth, obs_time=obs_time, subarray_type=subarray_type, boxsize=boxsize, total_int_time=total_int_time, int_time=int_time, declination=declination, uv_map=uvs['{:.3f}'.format(zs[k])], N_ant=N_ant, uv_weighting=uv_weighting, verbose=False, fft_wrap=fft_wrap, T_sys=T_sys, sefd_data=sefd_data, nu_data=nu_data, D_station=D_station, ep_aperture=ep_aperture, suppress_sharp_features_uv_map=suppress_sharp_features_uv_map)
        out[:, :, k] = jansky_2_kelvin(image, zs[k], boxsize=boxsize)
    return out


def gauss_kernel_3d(size, sigma=1.0, fwhm=None):
    if fwhm != None:
        sigma = fwhm/(2*np.sqrt(2*np.log(2)))
    half = int(size/2)
    if size % 2 == 0:
        x, y, z = np.mgrid[-half:half, -half:half, -half:half]
    else:
        x, y, z = np.mgrid[-half:half + 1, -half:half + 1, -half:half + 1]
    g = np.exp(-(x**2 + y**2 + z**2)/(2*sigma**2))
    return g/g.sum()


def smooth_gauss_3d(array, fwhm):
    return scipy.signal.fftconvolve(array, gauss_kernel_3d(2*(array.shape[0]//2) + 1, fwhm=fwhm), mode='same')

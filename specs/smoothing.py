"""Reference definitions: smoothing kernels and smoothing of maps, cubes and lightcones (P19, P13, P12)."""
import numpy as np
import scipy.ndimage as ndimage
import astropy.units as u
from tqdm import tqdm
from . import const, conv
from . import cosmo as cm
from .radio_telescope_noise import get_uv_map
from .helper_functions import find_idx
from .fft_functions import fftconvolve


def gauss_kernel(size, sigma=1.0, fwhm=None):
    if fwhm != None:
        sigma = fwhm/(2.*np.sqrt(2.*np.log(2)))
    if size % 2 == 0:
        h = int(size/2)
        x, y = np.mgrid[-h:h, -h:h]
    else:
        h = int(size/2)
        x, y = np.mgrid[-h:h + 1, -h:h + 1]
    g = np.exp(-(x*x + y*y)/(2.*sigma*sigma))
    return g/g.sum()


def gauss_kernel_3d(size, sigma=1.0, fwhm=None):
    if fwhm != None:
        sigma = fwhm/(2.*np.sqrt(2.*np.log(2)))
    if size % 2 == 0:
        h = int(size/2)
        x, y, z = np.mgrid[-h:h, -h:h, -h:h]
    else:
        h = int(size/2)
        x, y, z = np.mgrid[-h:h + 1, -h:h + 1, -h:h + 1]
    g = np.exp(-(x*x + y*y + z*z)/(2.*sigma*sigma))
    return g/g.sum()


def tophat_kernel(size, tophat_width):
    k = np.zeros((size, size))
    lo = max(int(size/2 - np.floor(tophat_width/2.)), 0)
    hi = int(size/2 + np.ceil(tophat_width/2.))
    k[lo:hi, lo:hi] = 1.
    return k/np.sum(k)


def tophat_kernel_3d(size, tophat_width, shape="cube"):
    size = np.broadcast_to(size, 3)
    k = np.zeros(tuple(size))
    if shape == "cube":
        k[tuple([slice(max(int(n/2 - np.floor(tophat_width/2.)), 0), int(n/2 + np.ceil(tophat_width/2.))) for n in size])] = 1.
    elif shape == "sphere":
        x, y, z = np.mgrid[tuple(slice(-(n//2), n - n//2) for n in size)]
        k[np.nonzero(np.sqrt(x*x + y*y + z*z) <= 0.5*tophat_width)] = 1.
    else:
        raise ValueError('shape')
    return k/np.sum(k)


def lanczos_kernel(size, kernel_width):
    xi = np.linspace(-size*0.5, size*0.5, size)
    x, y = np.meshgrid(xi, xi)
    a = kernel_width
    k = np.sinc(x)*np.sinc(x/a)*np.sinc(y)*np.sinc(y/a)
    k[np.abs(x) > a] = 0.
    k[np.abs(y) > a] = 0.
    return k/k.sum()


def smooth_gauss(input_array, sigma=1.0, fwhm=None):
    return smooth_with_kernel(input_array, gauss_kernel(input_array.shape[0], sigma=sigma, fwhm=fwhm))


def smooth_tophat(input_array, tophat_width):
    if input_array.shape[0] % 2 == 0:
        from .angular_coordinates import _get_padded_slice
        return smooth_tophat(_get_padded_slice(input_array, input_array.shape[0] + 1), tophat_width)[:-1, :-1]
    return smooth_with_kernel(input_array, tophat_kernel(input_array.shape[0], tophat_width))


def smooth_lanczos(input_array, kernel_width):
    return smooth_with_kernel(input_array, lanczos_kernel(input_array.shape[0], kernel_width))


def smooth_with_kernel(input_array, kernel):
    assert len(input_array.shape) == len(kernel.shape)
    return fftconvolve(input_array, kernel)


def get_beam_w(baseline, z):
    wavelength = const.c/(const.nu0/(1.0 + z))/1.e6*1.e3
    return wavelength/baseline/np.pi*180.*60.


def interpolate3d(input_array, x, y, z, order=0):
    inds = np.zeros((3, len(x), len(y), len(z)))
    inds[0, :, :] = x[:, np.newaxis, np.newaxis]
    inds[1, :, :] = y[np.newaxis, :, np.newaxis]
    inds[2, :, :] = z[np.newaxis, np.newaxis, :]
    return ndimage.map_coordinates(input_array, inds, mode='wrap', order=order, output=np.result_type(input_array, np.float32))


def interpolate2d(input_array, x, y, order=0):
    inds = np.zeros((2, len(x), len(y)))
    inds[0, :] = x[:, np.newaxis]
    inds[1, :] = y[np.newaxis, :]
    return ndimage.map_coordinates(input_array, inds, mode='wrap', order=order, prefilter=True, output=np.result_type(input_array, np.float32))


def smooth_lightcone(lightcone, z_array, box_size_mpc=False, max_baseline=2., ratio=1., verbose=True):
    if not box_size_mpc:
        box_size_mpc = conv.LB
    if np.ndim(z_array) == 1 and len(z_array) == lightcone.shape[2]:
        zs = np.array(z_array)
    else:
        zs = cm.cdist_to_z(cm.z_to_cdist(z_array) + np.arange(lightcone.shape[2])*(1.0*box_size_mpc/lightcone.shape[0]))
    if isinstance(max_baseline, u.Quantity):
        max_baseline = max_baseline.to('km').value
    down = (zs[1] - zs[0]) < 0
    if down:
        zs = np.flip(zs)
        lightcone = np.flip(lightcone, axis=2)
    res = (1 + zs)*21e-5/max_baseline*cm.z_to_cdist(zs)
    dz = ratio*res/const.c*cm.hubble_parameter(zs)
    out = smooth_lightcone_tophat(lightcone, zs, dz, verbose=verbose)
    out = smooth_lightcone_gauss(out, res*lightcone.shape[0]/box_size_mpc)
    if down:
        return np.flip(out, axis=2), np.flip(zs)
    else:
        return out, zs


def smooth_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1., nu_axis=2, verbose=True):
    if not box_size_mpc:
        box_size_mpc = conv.LB
    if isinstance(max_baseline, u.Quantity):
        max_baseline = max_baseline.to('km').value
    res = (1 + z)*21e-5/max_baseline*cm.z_to_cdist(z)*cube.shape[0]/box_size_mpc
    out = smooth_coeval_tophat(cube, res*ratio, nu_axis=nu_axis, verbose=verbose)
    return smooth_coeval_gauss(out, res, nu_axis=nu_axis)


def smooth_coeval_tophat(cube, width, nu_axis, verbose=True):
    data = np.moveaxis(cube, nu_axis, 2)
    kernel = np.zeros(data.shape[1:])
    kernel[data.shape[1]//2, :] = tophat_kernel(data.shape[2], width).sum(axis=0)
    out = np.zeros(data.shape)
    for i in range(data.shape[0]):
        out[i, :, :] = smooth_with_kernel(data[i, :, :], kernel)
    return np.moveaxis(out, 2, nu_axis)


def smooth_coeval_gauss(cube, fwhm, nu_axis):
    return smooth_lightcone_gauss(cube, fwhm*np.ones(cube.shape[nu_axis]), nu_axis=nu_axis)


def smooth_lightcone_tophat(lightcone, redshifts, dz, verbose=True):
    out = np.zeros(lightcone.shape)
    for i in range(lightcone.shape[2]):
        lo = int(np.ceil(find_idx(redshifts, redshifts[i] - dz[i]/2)))
        hi = int(np.ceil(find_idx(redshifts, redshifts[i] + dz[i]/2)))
        out[:, :, i] = np.mean(lightcone[:, :, lo:hi + 1], axis=2)
    return out


def smooth_lightcone_gauss(lightcone, fwhm, nu_axis=2):
    assert lightcone.shape[nu_axis] == len(fwhm)
    nu_axis = nu_axis % lightcone.ndim
    out = np.zeros(lightcone.shape)
    for i in range(out.shape[nu_axis]):
        if nu_axis == 0:
            out[i, :, :] = smooth_gauss(lightcone[i, :, :], fwhm=fwhm[i])
        elif nu_axis == 1:
            out[:, i, :] = smooth_gauss(lightcone[:, i, :], fwhm=fwhm[i])
        else:
            out[:, :, i] = smooth_gauss(lightcone[:, :, i], fwhm=fwhm[i])
    return out


def smooth_lightcone_uv_threshold(lightcone, uv_box, threshold=0.0):
    if not isinstance(threshold, (int, float)) or threshold < 0.0:
        raise ValueError('threshold')
    ft = np.fft.fft2(lightcone, axes=(0, 1))
    ft[uv_box < threshold] = 0.0
    return np.real(np.fft.ifft2(ft, axes=(0, 1)))


def remove_baselines_from_uvmap(uv_map, z, max_baseline=2, box_size_mpc=False):
    if not box_size_mpc:
        box_size_mpc = conv.LB
    if isinstance(max_baseline, u.Quantity):
        max_baseline = max_baseline.to('km').value
    kcut = box_size_mpc/((1 + z)*21e-5/max_baseline*cm.z_to_cdist(z))
    n0, n1 = uv_map.shape[0], uv_map.shape[1]
    x, y = np.meshgrid(np.arange(n0), np.arange(n1), sparse=True)
    filt = np.zeros_like(uv_map)
    filt[x**2 + y**2 <= kcut**2] = 1
    filt[(n0 - x)**2 + y**2 <= kcut**2] = 1
    filt[x**2 + (n1 - y)**2 <= kcut**2] = 1
    filt[(n0 - x)**2 + (n1 - y)**2 <= kcut**2] = 1
    filt[0, 0] = 0
    return filt*uv_map


def convolve_uvmap(array, z=None, uv_map=None, max_baseline=None, box_size_mpc=False, filename=None, total_int_time=6.0, int_time=10.0, declination=-30.0, verbose=True):
    if not box_size_mpc:
        box_size_mpc = conv.LB
    if isinstance(max_baseline, u.Quantity):
        max_baseline = max_baseline.to('km').value
    if uv_map is None:
        uv_map, N_ant = get_uv_map(array.shape[0], z, subarray_type=filename, total_int_time=total_int_time, int_time=int_time, boxsize=box_size_mpc,
                                   declination=declination, verbose=verbose)
    if max_baseline is not None:
        uv_map = remove_baselines_from_uvmap(uv_map, z, max_baseline=max_baseline, box_size_mpc=box_size_mpc)
    return np.real(np.fft.ifft2(np.fft.fft2(array)*(uv_map/uv_map.max())))


def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1., nu_axis=2, verbose=True,
                          filename=None, total_int_time=6.0, int_time=10.0, declination=-30.0, uv_map=None):
    if not box_size_mpc:
        box_size_mpc = conv.LB
    if isinstance(max_baseline, u.Quantity):
        max_baseline = max_baseline.to('km').value
    if uv_map is None:
        uv_map, N_ant = get_uv_map(cube.shape[0], z, subarray_type=filename, total_int_time=total_int_time, int_time=int_time, boxsize=box_size_mpc,
                                   declination=declination, verbose=verbose)
    if max_baseline is not None:
        uv_map = remove_baselines_from_uvmap(uv_map, z, max_baseline=max_baseline, box_size_mpc=box_size_mpc)
    res = (1 + z)*21e-5/max_baseline*cm.z_to_cdist(z)*cube.shape[0]/box_size_mpc
    out = np.moveaxis(smooth_coeval_tophat(cube, res*ratio, nu_axis=nu_axis, verbose=verbose), nu_axis, 2)
    out = np.stack([convolve_uvmap(out[:, :, i], uv_map=uv_map, verbose=verbose, box_size_mpc=box_size_mpc) for i in range(out.shape[2])], axis=2)
    return np.moveaxis(out, 2, nu_axis)


def smooth_line(y, window=3, kind='tophat'):
    if isinstance(window, int):
        if kind.lower() in ['tophat', 'boxcar']:
            window = np.ones(window)/window
        elif kind.lower() in ['normal', 'gaussian']:
            x = np.linspace(-3*window, 3*window, 6*window + 1)
            w = np.exp(-x**2/(2*(window**2)))
            window = w/np.sum(w)
        elif kind.lower() == 'triangular':
            w = np.arange(1, window + 1)
            w = np.concatenate([w, w[::-1][1:]])
            window = w/w.sum()
        elif kind.lower() == 'hamming':
            w = np.hamming(window)
            window = w/w.sum()
        elif kind.lower() == 'hanning':
            w = np.hanning(window)
            window = w/w.sum()
        else:
            raise ValueError('kind')
    elif isinstance(window, (list, np.ndarray)):
        w = np.array(window)
        window = w/np.sum(w)
    else:
        raise ValueError('window')
    return np.convolve(y, window, mode='same')

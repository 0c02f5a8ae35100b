"""Reference definitions: Fourier power spectra (P17, P18).

P(k) = |FFT|^2 V / N^2 on the shifted grid; wavenumber of cell i on an axis of n cells and length L is 2 pi (i - n//2)/L;
a bin's value is the histogram of power by |k| over the histogram of modes by |k|.
"""
import numpy as np
from scipy import stats
from scipy.interpolate import interp1d
from . import conv


def apply_window(input_array, window):
    from scipy.signal import windows
    if window is None:
        return input_array
    if isinstance(window, str):
        n = input_array.shape[-1]
        if window.lower() == 'blackmanharris':
            return input_array*windows.blackmanharris(n)[None, None, :]
        if window.lower() == 'tukey':
            return input_array*windows.tukey(n)[None, None, :]
        raise ValueError(window)
    return input_array*window


def _get_dims(box_dims, ashape):
    if box_dims is None:
        return [conv.LB]*len(ashape)
    if hasattr(box_dims, '__iter__'):
        return box_dims
    return [box_dims]*len(ashape)


def _get_k(input_array, box_dims):
    dim = len(input_array.shape)
    if dim == 1:
        kx = 2*np.pi*(np.arange(len(input_array)) - len(input_array)//2)/box_dims[0]
        return [kx], np.abs(kx)
    if dim == 2:
        i, j = np.indices(input_array.shape)
        kx = 2*np.pi*(i - input_array.shape[0]//2)/box_dims[0]
        ky = 2*np.pi*(j - input_array.shape[1]//2)/box_dims[1]
        return [kx, ky], np.sqrt(kx**2 + ky**2)
    if dim == 3:
        i, j, l = np.indices(input_array.shape)
        kx = 2*np.pi*(i - input_array.shape[0]//2)/box_dims[0]
        ky = 2*np.pi*(j - input_array.shape[1]//2)/box_dims[1]
        kz = 2*np.pi*(l - input_array.shape[2]//2)/box_dims[2]
        return [kx, ky, kz], np.sqrt(kx**2 + ky**2 + kz**2)


def get_k(input_array, box_dims):
    return _get_k(input_array, _get_dims(box_dims, input_array.shape))


def _get_kbins(kbins, box_dims, k, binning='log', breakpoint=0.1, kmin=None, kmax=None):
    if not isinstance(kbins, int):
        return kbins
    if kmin is None:
        kmin = 2*np.pi/min(box_dims)
    if kmax is None:
        kmax = k.max()
    lin = np.linspace(kmin, kmax, kbins + 1)
    log = 10**np.linspace(np.log10(kmin), np.log10(kmax), kbins + 1)
    if binning == 'linear':
        return lin
    if binning == 'log':
        return log
    if binning == 'mixed':
        return np.hstack((lin[lin < breakpoint], log[log > breakpoint]))
    raise ValueError(binning)


def get_kbins(kbins, box_dims, k=None, array=None, binning='log'):
    if k is None:
        if array is None:
            raise AssertionError
        box_dims = _get_dims(box_dims, array.shape)
        k = _get_k(array, box_dims)[1]
        return _get_kbins(kbins, box_dims, k, binning=binning)
    return _get_kbins(kbins, _get_dims(box_dims, (k if array is None else array).shape), k, binning=binning)


def power_spectrum_nd(input_array, box_dims=None, verbose=False, **kwargs):
    if kwargs.get('boxsize') is not None:
        box_dims = kwargs.get('boxsize')
    L = _get_dims(box_dims, input_array.shape)
    return np.abs(np.fft.fftshift(np.fft.fftn(input_array)))**2*np.prod(L)/np.size(input_array)**2


def cross_power_spectrum_nd(input_array1, input_array2, box_dims, **kwargs):
    assert input_array1.shape == input_array2.shape
    if kwargs.get('boxsize') is not None:
        box_dims = kwargs.get('boxsize')
    L = _get_dims(box_dims, input_array1.shape)
    f = np.fft.fftshift(np.fft.fftn(input_array1))
    g = np.fft.fftshift(np.fft.fftn(input_array2))
    return (np.real(f)*np.real(g) + np.imag(f)*np.imag(g))*np.prod(L)/np.size(input_array1)**2


def radial_average(input_array, box_dims, kbins=10, binning='log', breakpoint=0.1, **kwargs):
    if kwargs.get('boxsize') is not None:
        box_dims = kwargs.get('boxsize')
    L = _get_dims(box_dims, input_array.shape)
    k = _get_k(input_array, L)[1]
    edges = _get_kbins(kbins, L, k, binning=binning, breakpoint=breakpoint)
    n = np.histogram(k.ravel(), bins=edges)[0]
    total = np.histogram(k.ravel(), bins=edges, weights=input_array.ravel())[0]
    return total/n, (edges[:-1] + edges[1:])/2, n


def power_spectrum_1d(input_array_nd, kbins=100, box_dims=None, return_n_modes=False, binning='log', breakpoint=0.1, window=None, **kwargs):
    data = apply_window(input_array_nd, window)
    if kwargs.get('boxsize') is not None:
        box_dims = kwargs.get('boxsize')
    L = _get_dims(box_dims, data.shape)
    ps, k, n = radial_average(power_spectrum_nd(data, box_dims=L), L, kbins=kbins, binning=binning, breakpoint=breakpoint)
    if return_n_modes:
        return ps, k, n
    return ps, k


def cross_power_spectrum_1d(input_array1_nd, input_array2_nd, kbins=100, box_dims=None, return_n_modes=False, binning='log', breakpoint=0.1, **kwargs):
    if kwargs.get('boxsize') is not None:
        box_dims = kwargs.get('boxsize')
    L = _get_dims(box_dims, input_array1_nd.shape)
    ps, k, n = radial_average(cross_power_spectrum_nd(input_array1_nd, input_array2_nd, box_dims=L), L, kbins=kbins, binning=binning, breakpoint=breakpoint)
    if return_n_modes:
        return ps, k, n
    return ps, k


def power_spectrum_2d(input_array, kbins=10, binning='log', box_dims=244/.7, return_modes=False, nu_axis=2, window=None, **kwargs):
    data = apply_window(input_array, window)
    if not hasattr(kbins, '__iter__'):
        kbins = [kbins, kbins]
    elif not isinstance(kbins[0], (int, np.integer)):
        binning = None
    if kwargs.get('boxsize') is not None:
        box_dims = kwargs.get('boxsize')
    L = _get_dims(box_dims, data.shape)
    power = power_spectrum_nd(data, L)
    kxyz = _get_k(data, L)[0]
    if nu_axis == 0:
        a, b = 1, 2
    elif nu_axis == 1:
        a, b = 0, 2
    elif nu_axis == 2:
        a, b = 0, 1
    else:
        raise ValueError
    kz = np.abs(kxyz[nu_axis])
    kp = np.sqrt(kxyz[a]**2 + kxyz[b]**2)
    if binning is None:
        kper, kpar = np.array(kbins[0]), np.array(kbins[1])
    elif binning == 'log':
        kper = np.linspace(np.log10(kp[kp != 0].min()), np.log10(kp.max()), kbins[0] + 1)
        kpar = np.linspace(np.log10(kz[kz != 0].min()), np.log10(kz.max()), kbins[1] + 1)
        kp, kz = np.log10(kp), np.log10(kz)
    elif binning == 'linear':
        kper = np.linspace(kp[kp != 0].min(), kp.max(), kbins[0] + 1)
        kpar = np.linspace(kz[kz != 0].min(), kz.max(), kbins[1] + 1)
    elif binning == 'mixed':
        kper = _get_kbins(kbins[0], L, kp, binning='mixed', kmin=kp[kp != 0].min())
        kpar = _get_kbins(kbins[1], L, kz, binning='mixed', kmin=kz[kz != 0].min())
    else:
        raise ValueError(binning)
    ps = stats.binned_statistic_2d(x=kp.ravel(), y=kz.ravel(), values=power.ravel(), statistic='mean', bins=[kper, kpar]).statistic
    mper, mpar = 0.5*(kper[1:] + kper[:-1]), 0.5*(kpar[1:] + kpar[:-1])
    if binning == 'log':
        mper, mpar = 10**mper, 10**mpar
    if return_modes:
        n = stats.binned_statistic_2d(x=kp.ravel(), y=kz.ravel(), values=None, statistic='count', bins=[kper, kpar]).statistic
        return ps, mper, mpar, n
    return ps, mper, mpar


def _get_mu(k_comp, k, los_axis, absolute_mus):
    if los_axis not in (0, 1, 2):
        raise Exception
    mu = k_comp[los_axis]/k
    if absolute_mus:
        mu = np.abs(mu)
    else:
        mu = k_comp[los_axis]/np.abs(k)
    mu[k == 0] = np.nan
    return mu


def _get_nonzero_idx(ps_shape, los_axis):
    x, y, z = np.indices(ps_shape)
    cx, cy, cz = ps_shape[0]//2, ps_shape[1]//2, ps_shape[2]//2
    if los_axis == 0:
        zero = (y == cy)*(z == cz)
    elif los_axis == 1:
        zero = (x == cx)*(z == cz)
    else:
        zero = (x == cx)*(y == cy)
    return np.invert(zero)


def mu_binning(powerspectrum, los_axis=0, mubins=20, kbins=10, box_dims=None, weights=None, exclude_zero_modes=True, binning='log', absolute_mus=True):
    ps = powerspectrum.copy() if weights is None else powerspectrum*weights
    assert len(ps.shape) == 3
    kc, k = _get_k(ps, box_dims)
    mu = _get_mu(kc, k, los_axis, absolute_mus)
    edges = _get_kbins(kbins, box_dims, k, binning=binning)
    good = _get_nonzero_idx(ps.shape, los_axis) if exclude_zero_modes else np.ones_like(ps)
    if isinstance(mubins, int):
        mubins = np.linspace(0.0 if absolute_mus else -1.0, 1.0, mubins + 1)
    nmu, nk = len(mubins) - 1, len(edges) - 1
    ps[tuple((np.array(ps.shape)/2).astype(int))] = 0.
    out = np.zeros((nmu, nk))
    modes = np.zeros((nmu, nk))
    for ki in range(nk):
        kidx = (k >= edges[ki]) & (k < edges[ki + 1])
        kidx = kidx*good
        for i in range(nmu):
            idx = (mu >= mubins[i]) & (mu < mubins[i + 1]) & kidx.astype(bool)
            out[i, ki] = np.mean(ps[idx])
            modes[i, ki] = np.size(ps[idx])
            if weights is not None:
                out[i, ki] /= weights[idx].mean()
    return out, (mubins[:-1] + mubins[1:])/2, (edges[:-1] + edges[1:])/2, modes


def power_spectrum_mu(input_array, los_axis=0, mubins=20, kbins=10, box_dims=None, weights=None, exclude_zero_modes=True, return_n_modes=False, absolute_mus=True, **kwargs):
    if kwargs.get('boxsize') is not None:
        box_dims = kwargs.get('boxsize')
    L = _get_dims(box_dims, input_array.shape)
    ps, m, k, n = mu_binning(power_spectrum_nd(input_array, box_dims=L), los_axis, mubins, kbins, L, weights, exclude_zero_modes, absolute_mus=absolute_mus)
    if return_n_modes:
        return ps, m, k, n
    return ps, m, k


def cross_power_spectrum_mu(input_array1, input_array2, los_axis=0, mubins=20, kbins=10, box_dims=None, weights=None, exclude_zero_modes=True, return_n_modes=False, absolute_mus=True, **kwargs):
    if kwargs.get('boxsize') is not None:
        box_dims = kwargs.get('boxsize')
    L = _get_dims(box_dims, input_array1.shape)
    ps, m, k, n = mu_binning(cross_power_spectrum_nd(input_array1, input_array2, box_dims=L), los_axis, mubins, kbins, L, weights, exclude_zero_modes, absolute_mus=absolute_mus)
    if return_n_modes:
        return ps, m, k, n
    return ps, m, k


def dimensionless_ps(data, kbins=100, box_dims=None, binning='log', factor=10):
    Pk, ks = power_spectrum_1d(data, kbins=kbins*factor, box_dims=box_dims, binning=binning)
    f = interp1d(ks, Pk*ks**3/(2*np.pi**2))
    if binning == 'log':
        knew = 10**np.linspace(np.log10(ks[1]), np.log10(ks[-1]), kbins)
    else:
        knew = np.linspace(ks[1], ks[-1], kbins)
    return f(knew), knew


def anisotropy_ratio_r_mu(input_array, los_axis=0, mu_cut=0.5, mubins=20, kbins=10, box_dims=None, weights=None, exclude_zero_modes=True, return_n_modes=False, absolute_mus=True, **kwargs):
    Pk, mu, k, n = power_spectrum_mu(input_array, los_axis=los_axis, mubins=mubins, kbins=kbins, box_dims=box_dims, weights=weights, exclude_zero_modes=exclude_zero_modes,
                                     return_n_modes=True, absolute_mus=absolute_mus, **kwargs)
    up = np.array([p[np.isfinite(p)].mean() for p in Pk[mu >= mu_cut, :].T])
    down = np.array([p[np.isfinite(p)].mean() for p in Pk[mu < mu_cut, :].T])
    if return_n_modes:
        return up/down - 1, k, n
    return up/down - 1, k

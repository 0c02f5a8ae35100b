"""Reference definitions for power_spect_fast.py."""
import numpy as np
from scipy.signal import windows
from tqdm import tqdm
from . import cosmo, const


def power_spect_nd(input_array, box_dims, verbose=True):
    if np.array(box_dims).size != 3:
        box_dims = np.array([box_dims, box_dims, box_dims])
    ft = np.fft.fftshift(np.fft.fftn(input_array.astype('float64')))
    V = np.prod(box_dims)
    pixel = V/np.prod(input_array.shape)
    return np.abs(ft)**2*pixel**2/V


def _get_k(input_array, box_dims):
    if np.array(box_dims).size != 3:
        box_dims = np.array([box_dims, box_dims, box_dims])
    shape = input_array.shape
    dim = len(shape)
    if dim == 1:
        kx = 2*np.pi*(np.arange(len(input_array)) - len(input_array)//2)/box_dims[0]
        return [kx], kx
    elif dim == 2:
        x, y = np.indices(shape, dtype='int32')
        kx = 2*np.pi*(x - shape[0]//2)/box_dims[0]
        ky = 2*np.pi*(y - shape[1]//2)/box_dims[1]
        return [kx, ky], np.sqrt(kx**2 + ky**2)
    elif dim == 3:
        x, y, z = np.indices(shape, dtype='int32')
        kx = 2*np.pi*(x - shape[0]//2)/box_dims[0]
        ky = 2*np.pi*(y - shape[1]//2)/box_dims[1]
        kz = 2*np.pi*(z - shape[2]//2)/box_dims[2]
        return [kx, ky, kz], np.sqrt(kx**2 + ky**2 + kz**2)


def power_spect_1d(input_array, kbins=10, binning='log', box_dims=244/.7, return_modes=False, kmin=None, kmax=None):
    power = power_spect_nd(input_array, box_dims, verbose=0)
    comp, k = _get_k(input_array, box_dims)
    lo = 2*np.pi/np.array(box_dims).max() if kmin is None else kmin
    hi = k.max() if kmax is None else kmax
    if binning == 'log':
        edges = np.linspace(np.log10(lo), np.log10(hi), kbins + 1)
        k = np.log10(k)
        centres = (edges[:-1] + edges[1:])/2
    elif binning == 'linear':
        edges = np.linspace(lo, hi, kbins + 1)
        centres = (edges[:-1] + edges[1:])/2
    elif binning == 'auto':
        n = k.size/kbins
        order = np.sort(k.flatten())
        centres = np.array([order[int(i)] for i in np.arange(n/2, k.size, n)])
        edges = np.hstack((k.min(), (centres[1:] + centres[:-1])/2, k.max()))
    else:
        raise ValueError
    k, power = k.flatten(), power.flatten()
    ps, modes = np.zeros(kbins), np.zeros(kbins)
    for i in range(len(centres)):
        if i < len(centres) - 1:
            inside = np.argwhere((k >= edges[i]) & (k < edges[i + 1]))
        else:
            inside = np.argwhere((k >= edges[i]) & (k <= edges[i + 1]))
        ps[i] = power[inside].sum()
        modes[i] = inside.size
    ps = ps/modes
    if binning == 'log':
        centres = 10**centres
    if return_modes:
        return ps, centres, modes
    return ps, centres


def dimensional_power(input_array, kbins=10, binning='log', box_dims=244/.7, return_modes=False):
    ps, ks, modes = power_spect_1d(input_array, kbins=kbins, binning=binning, box_dims=box_dims, return_modes=1)
    d = ps*ks**3/(2*np.pi**2)
    if return_modes:
        return d, ks, modes
    return d, ks


def horizon_wedge_equation(z, fov_deg=90.0):
    return lambda kper: kper*np.sin(fov_deg*np.pi/180)/(1 + z)*cosmo.hubble_parameter(z)/const.c*cosmo.z_to_cdist(z)


def phase_spect_nd(input_array, box_dims, verbose=True):
    ft = np.fft.fftshift(np.fft.fftn(input_array.astype('float64')))
    return np.arctan(np.imag(ft)/np.real(ft))


def _counted(a, b, edges_a, edges_b, power):
    # every mode between the outer edges is in one bin
    na, nb = len(edges_a) - 1, len(edges_b) - 1
    ps, modes = np.zeros((na, nb)), np.zeros((na, nb))
    for i in range(na):
        ia = (a >= edges_a[i]) & (a <= edges_a[i + 1]) if i == len(edges_a) - 2 else (a >= edges_a[i]) & (a < edges_a[i + 1])
        for j in range(nb):
            ib = (b >= edges_b[j]) & (b <= edges_b[j + 1]) if j == len(edges_b) - 2 else (b >= edges_b[j]) & (b < edges_b[j + 1])
            inside = np.argwhere(ia & ib)
            ps[i, j] = power[inside].sum()
            modes[i, j] = inside.size
    return ps/modes, modes


def power_spect_2d(input_array, kbins=10, binning='log', box_dims=244/.7, return_modes=False, nu_axis=2, window=None):
    if window is not None:
        if not isinstance(window, str):
            input_array = input_array*window
        elif window.lower() == 'blackmanharris':
            input_array = input_array*windows.blackmanharris(input_array.shape[-1])[None, None, :]
        elif window.lower() == 'tukey':
            input_array = input_array*windows.tukey(input_array.shape[-1])[None, None, :]
        else:
            raise ValueError('window')
    if np.array(kbins).size == 1:
        kbins = [kbins, kbins]
    if not isinstance(kbins[0], int):
        binning = None
    power = power_spect_nd(input_array, box_dims, verbose=0)
    comp, k = _get_k(input_array, box_dims)
    others = [i for i in range(3) if i != nu_axis]
    kz = np.abs(comp[nu_axis])
    kp = np.sqrt(comp[others[0]]**2 + comp[others[1]]**2)
    if binning is None:
        ep, ez = np.array(kbins[0]), np.array(kbins[1])
    elif binning == 'log':
        ep = np.linspace(np.log10(np.abs(kp[kp != 0]).min()), np.log10(kp.max()), kbins[0] + 1)
        ez = np.linspace(np.log10(np.abs(kz[kz != 0]).min()), np.log10(kz.max()), kbins[1] + 1)
        kp, kz = np.log10(kp), np.log10(kz)
    elif binning == 'linear':
        ep = np.linspace(np.abs(kp[kp != 0]).min(), kp.max(), kbins[0] + 1)
        ez = np.linspace(np.abs(kz[kz != 0]).min(), kz.max(), kbins[1] + 1)
    else:
        raise ValueError('binning')
    ps, modes = _counted(kp.flatten(), kz.flatten(), ep, ez, power.flatten())
    kper, kpar = (ep[:-1] + ep[1:])/2, (ez[:-1] + ez[1:])/2
    if binning == 'log':
        kper, kpar = 10**kper, 10**kpar
    if return_modes:
        return ps, kper, kpar, modes
    return ps, kper, kpar


def power_spect_mu(input_array, kbins=10, box_dims=244/.7, return_modes=False, mubins=10, binning='log', nu_axis=2):
    if isinstance(binning, str):
        binning = [binning, binning]
    power = power_spect_nd(input_array, box_dims, verbose=0)
    comp, k = _get_k(input_array, box_dims)
    m = np.abs(comp[nu_axis]/k)
    if binning[0] == 'log':
        ek = np.linspace(np.log10(np.abs(k[k != 0]).min()), np.log10(k.max()), kbins + 1)
        k = np.log10(k)
    else:
        ek = np.linspace(np.abs(k[k != 0]).min(), k.max(), kbins + 1)
    if binning[1] == 'log':
        fin = m[np.isfinite(m)]
        em = np.linspace(np.log10(np.abs(fin[fin != 0]).min()), np.log10(fin.max()), mubins + 1)
        m = np.log10(m)
    else:
        em = np.linspace(0, 1, mubins + 1)
    ps, modes = _counted(k.flatten(), m.flatten(), ek, em, power.flatten())
    ks, mu = (ek[:-1] + ek[1:])/2, (em[:-1] + em[1:])/2
    if binning[0] == 'log':
        ks = 10**ks
    if binning[1] == 'log':
        mu = 10**mu
    if return_modes:
        return ps, ks, mu, modes
    return ps, ks, mu

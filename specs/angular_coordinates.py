"""Reference definitions for angular_coordinates.py: physical <-> observational lightcones."""
import numpy as np
from scipy.signal import fftconvolve
from . import cosmo as cm
from . import conv
from . import helper_functions as hf
from . import smoothing


def physical_lightcone_to_observational(physical_lightcone, input_z_low, output_dnu, output_dtheta, input_box_size_mpc=None, verbose=True, order=2, mode='pad'):
    how = mode.lower()
    assert how in ['pad', 'full', 'extend', 'crop', 'valid']
    L = conv.LB if input_box_size_mpc is None else input_box_size_mpc
    if np.ndim(input_z_low) == 0:
        zlo = input_z_low
        d = cm.z_to_cdist(zlo) + np.arange(physical_lightcone.shape[2])*(L/physical_lightcone.shape[0])
        zhi = cm.cdist_to_z(d).max()
    else:
        zlo, zhi = input_z_low.min(), input_z_low.max()
    wide = cm.angular_size_comoving(L, zlo)
    narrow = cm.angular_size_comoving(L, zhi)
    cube, freqs = bin_lightcone_in_frequency(physical_lightcone, zlo, L, output_dnu)
    n = int(wide*60/output_dtheta)
    out = np.zeros((n, n, len(freqs)))
    for i in range(len(freqs)):
        out[:, :, i] = physical_slice_to_angular(cube[:, :, i], cm.nu_to_z(freqs[i]), slice_size_mpc=L, fov_deg=wide, dtheta=output_dtheta, order=order)
    if how in ('crop', 'valid'):
        m = int(narrow*60/output_dtheta)
        lo, hi = (n - m)//2, (n + m)//2
        out = out[lo:hi, lo:hi, :]
    return out, freqs


def observational_lightcone_to_physical(observational_lightcone, input_freqs, input_dtheta, verbose=True, order=2):
    assert input_freqs[0] > input_freqs[-1]
    assert observational_lightcone.shape[0] == observational_lightcone.shape[1]
    n = observational_lightcone.shape[0]
    zlo = cm.nu_to_z(input_freqs[0])
    fov = n*input_dtheta/60
    L = fov/cm.angular_size_comoving(1., zlo)
    perp = L/n
    par = cm.nu_to_cdist(input_freqs[-1]) - cm.nu_to_cdist(input_freqs[-2])
    cell = max([par, perp])
    m = int(L/cell)
    cube = np.zeros((m, m, observational_lightcone.shape[2]))
    for i in range(observational_lightcone.shape[2]):
        cube[:, :, i] = angular_slice_to_physical(observational_lightcone[:, :, i], cm.nu_to_z(input_freqs[i]), slice_size_deg=fov, output_cell_size=cell, output_size_mpc=L, order=order)
    out, zs = bin_lightcone_in_mpc(cube, input_freqs, cell)
    return out, zs, cell


def physical_slice_to_angular(input_slice, z, slice_size_mpc, fov_deg, dtheta, order=0):
    L = cm.deg_to_cdist(fov_deg, z)
    cell = L/(fov_deg*60/dtheta)
    n = int(slice_size_mpc/cell)
    if n % 2 == 0:
        n -= 1
    s = resample_slice(input_slice, n, order)
    m = s.shape[0]
    padded = int(fov_deg*60/dtheta)
    if padded < m:
        padded = m
    return _get_padded_slice(s, padded)


def angular_slice_to_physical(input_slice, z, slice_size_deg, output_cell_size, output_size_mpc, order=0, prefilter=True):
    L = cm.deg_to_cdist(slice_size_deg, z)
    n = int(L/output_cell_size)
    if n % 2 == 0:
        n += 1
    s = resample_slice(input_slice, n, order, prefilter)
    m = int(output_size_mpc/output_cell_size)
    if m > input_slice.shape[0]:
        m = input_slice.shape[0]
    return s[:m, :m]


def resample_slice(input_slice, n_output_cells, order=0, prefilter=True):
    w = np.round(input_slice.shape[0]/n_output_cells)
    if w < 1 or not prefilter:
        w = 1
    s = smoothing.smooth_tophat(input_slice, w)
    x = np.linspace(0, s.shape[0] - 1, n_output_cells)
    return smoothing.interpolate2d(s, x, x, order=order)


def bin_lightcone_in_frequency(lightcone, z_low, box_size_mpc, dnu):
    cell = box_size_mpc/lightcone.shape[0]
    nu = cm.z_to_nu(cm.cdist_to_z(cm.z_to_cdist(z_low) + cell*np.arange(lightcone.shape[2])))
    freqs = np.arange(nu[0], nu[-1], -dnu)
    width = np.round((cm.nu_to_cdist(freqs[-1]) - cm.nu_to_cdist(freqs[-2]))/cell)
    if width < 1:
        width = 1
    kern = np.ones((1, 1, int(width)))
    s = fftconvolve(lightcone, kern/np.sum(kern), mode='same')
    out = np.zeros((lightcone.shape[0], lightcone.shape[1], len(freqs)))
    for i in range(len(freqs)):
        out[:, :, i] = s[:, :, int(hf.find_idx(nu, freqs[i]))]
    return out, freqs


def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
    d = cm.nu_to_cdist(frequencies)
    n = (d[-1] - d[0])/cell_size_mpc
    where = np.arange(d[0], d[-1], cell_size_mpc)
    m = np.round(len(frequencies)/n)
    if m < 1:
        m = 1
    kern = np.ones((1, 1, int(m)))
    s = fftconvolve(lightcone, kern/np.sum(kern), mode='same')
    out = np.zeros((lightcone.shape[0], lightcone.shape[1], int(n)))
    for i in range(int(n)):
        out[:, :, i] = s[:, :, int(hf.find_idx(d, where[i]))]
    return out, cm.cdist_to_z(where[:int(n)])


def _get_padded_slice(input_slice, padded_n):
    n = input_slice.shape[0]
    r = padded_n - n
    out = np.zeros((padded_n, padded_n))
    out[:n, :n] = input_slice
    out[n:, :n] = input_slice[:r, :n]
    out[:n, n:] = input_slice[:, :r]
    out[n:, n:] = input_slice[:r, :r]
    return out


def padding_lightcone(lc, padded_n=None, mode='wrap', verbose=True):
    p = int(lc.shape[1]/2) if padded_n is None else padded_n
    out = np.zeros((lc.shape[0] + 2*p, lc.shape[1] + 2*p, lc.shape[2]))
    for i in range(lc.shape[2]):
        out[:, :, i] = np.pad(lc[:, :, i], p, mode=mode)
    return out

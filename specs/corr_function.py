"""Reference definitions for corr_function.py: correlation functions from spectra and from pair counts."""
import numpy as np
from scipy.spatial import cKDTree
from . import conv
from .scipy_func import trapz
from .power_spectrum import power_spectrum_1d, cross_power_spectrum_1d


def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
    if binning not in ['log', 'linear']:
        raise ValueError
    if isinstance(rbins, int):
        if box_dims is None:
            box_dims = conv.LB
        low, high = 2*box_dims/n_grid, box_dims/2
        if binning == 'log':
            rbins = 10**np.linspace(np.log10(low), np.log10(high), rbins)
        else:
            rbins = np.linspace(low, high, rbins)
    good = np.isfinite(ps)
    k, p = ks[good], ps[good]
    return 4*np.pi*trapz(k**2*p*np.sinc(k[None, :]*rbins[:, None]/np.pi), k, axis=1), rbins


def correlation_function(input_array_nd, rbins=10, kbins=10, box_dims=None, binning='log', k_binning='log'):
    if kbins is None:
        kbins = rbins*10
    ps, ks, n = power_spectrum_1d(input_array_nd, kbins=kbins, box_dims=box_dims, return_n_modes=True, binning=k_binning)
    return ps_to_corr(ps, ks, rbins=rbins, box_dims=box_dims, n_grid=input_array_nd.shape[0], binning=binning)


def cross_correlation_function(input_array1_nd, input_array2_nd, rbins=10, kbins=100, box_dims=None, binning='log', k_binning='log'):
    if kbins is None:
        kbins = rbins*10
    ps, ks, n = cross_power_spectrum_1d(input_array1_nd, input_array2_nd, kbins=kbins, box_dims=box_dims, return_n_modes=True, binning=k_binning)
    return ps_to_corr(ps, ks, rbins=rbins, box_dims=box_dims, n_grid=input_array1_nd.shape[0], binning=binning)


def landy_szalay_estimator(data, randoms=None, rbins=10, box_dims=None, binning='log', **kwargs):
    if box_dims is None:
        box_dims = conv.LB
    if data.ndim == 3:
        data = np.argwhere(data > 0)*box_dims/data.shape[0]
    if randoms is None:
        randoms = np.random.uniform(data.min(), data.max(), data.shape)
    if binning not in ['log', 'linear']:
        raise ValueError
    if isinstance(rbins, int):
        rmin, rmax = kwargs.get('rmin'), kwargs.get('rmax')
        if rmin is None:
            rmin = 0.01
        if rmax is None:
            rmax = box_dims
        if binning == 'log':
            rbins = np.logspace(np.log10(rmin), np.log10(rmax), rbins)
        else:
            rbins = np.linspace(rmin, rmax, rbins)
    else:
        rbins = np.asarray(rbins)
        rmax = rbins.max()
    trees = cKDTree(data), cKDTree(randoms)
    counts = []
    for tree in trees:
        pairs = tree.query_pairs(rmax, output_type='ndarray')
        counts.append(np.histogram(np.linalg.norm(tree.data[pairs[:, 0]] - tree.data[pairs[:, 1]], axis=1), bins=rbins)[0])
    cross = np.zeros(len(rbins) - 1)
    for point in data:
        d, i = trees[1].query(point, k=len(randoms), distance_upper_bound=rmax)
        cross += np.histogram(d[d <= rmax], bins=rbins)[0]
    nd, nr = len(data), len(randoms)
    DD = counts[0]/(nd*(nd - 1)/2)
    RR = counts[1]/(nr*(nr - 1)/2)
    DR = cross/(nd*nr)
    return (DD - 2*DR + RR)/RR, (rbins[:-1] + rbins[1:])/2

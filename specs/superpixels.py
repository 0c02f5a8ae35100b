"""Reference definitions: superpixels (P24, P27)."""
import sys
import numpy as np
import matplotlib.pyplot as plt
from skimage.segmentation import slic, mark_boundaries
from skimage.filters import threshold_otsu
from scipy.signal import argrelextrema


def slic_cube(cube, n_segments=5000, compactness=0.1, max_iter=20, sigma=0, min_size_factor=0.5, max_size_factor=3, cmap=None, verbose=True):
    chan = None
    if cmap is not None:
        cube = np.delete(plt.get_cmap(cmap)(cube), 3, -1)
        chan = -1
    return slic(cube, n_segments=n_segments, compactness=compactness, max_num_iter=max_iter, sigma=sigma, min_size_factor=min_size_factor,
                max_size_factor=max_size_factor, slic_zero=True, channel_axis=chan, start_label=0)


def see_label(out_map, label):
    b = np.zeros(out_map.shape)
    if out_map[out_map == label].size:
        b[out_map == label] = 1
    return b


def binary_stitch(data, labels, stitch='mean', thres=None):
    x = data.reshape(-1, 1)
    y = labels.reshape(-1, 1)
    means = [x[y == i].mean() for i in np.unique(y)]
    if thres is None:
        if stitch == 'otsu':
            thres = threshold_otsu(np.array(means))
        elif stitch == 'mean':
            thres = x.mean()
        else:
            raise ValueError('stitch')
    m = np.zeros(y.shape)
    for j, i in enumerate(np.unique(y)):
        m[y == i] = means[j]
    return (m < thres).reshape(data.shape)


def boundaries(sl, lab, mark=True, factor=1.01):
    assert sl.ndim == 2 and lab.ndim == 2
    edge = mark_boundaries(np.zeros(sl.shape), lab)
    out = sl.astype(np.result_type(sl, np.float32))
    if mark:
        out[edge[:, :, 0] == 1] = factor*sl.max()
    else:
        out[0, 0] = factor*sl.max()
    return out


def under_segmentation_error(labels, truths, b=0.25, verbose=True):
    assert labels.shape == truths.shape
    nx, ny, nz = labels.shape
    u = 0
    for i in np.unique(truths):
        for j in np.unique(labels):
            g = np.zeros((nx, ny, nz))
            s = np.zeros((nx, ny, nz))
            g[truths == i] = 1
            s[labels == j] = 1
            both = g + s
            if both[both == 2].size > b*s.sum():
                u = u + s.sum()
    return (u - labels.size)/labels.size


def stitch_using_histogram(data, mns, labels, bins='knuth', binary=True, on_superpixel_map=True, verbose=True):
    if bins in ['knuth', 'scotts', 'freedman', 'blocks']:
        if 'astroML' in sys.modules:
            from astroML.density_estimation import histogram
        else:
            bins = 'auto'
            from numpy import histogram
    else:
        from numpy import histogram
    h = histogram(mns, bins=bins)
    n, e = h[0], h[1]
    if n.argmax() == 0:
        peaks = argrelextrema(np.hstack((0, n)), np.greater)[0]
    else:
        peaks = argrelextrema(n, np.greater)[0]
    if peaks.size == 1:
        top = n.argmax()
        slope = (n.max() - n[0])/(e[top] - e[0])
        dist = np.array([np.abs((n[i] - n[0]) - slope*(e[i] - e[0])) for i in range(top)])
        thres = e[dist.argmax()]/2. + e[dist.argmax() + 1]/2.
    else:
        if len(np.unique(mns)) == 1:
            return np.zeros_like(data)
        thres = threshold_otsu(mns)
    if not binary:
        return thres
    if on_superpixel_map:
        return superpixel_map(data, labels, mns=mns, verbose=verbose) < thres
    return data < thres


def stitch_superpixels(data, labels, bins='knuth', binary=True, on_superpixel_map=True, verbose=True):
    return stitch_using_histogram(data, get_superpixel_means(data, labels=labels, verbose=verbose), labels, bins=bins, binary=binary, on_superpixel_map=on_superpixel_map, verbose=verbose)


def apply_operator_labelled_data(data, labels, operator=np.mean, verbose=True):
    y = labels.flatten()
    elems, num = np.unique(y, return_counts=1)
    x = data.flatten()[y.argsort()]
    out = []
    lo = 0
    for n in num:
        hi = lo + n
        out.append(operator(x[lo:hi]))
        lo = hi
    return out


def _labels(data, labels, n, verbose):
    return slic_cube(data, n_segments=n, verbose=verbose) if labels is None else labels


def get_superpixel_means(data, labels=None, slic_segments=3000, verbose=True):
    return np.array(apply_operator_labelled_data(data, _labels(data, labels, slic_segments, verbose), operator=np.mean, verbose=verbose))


def get_superpixel_sigmas(data, labels=None, slic_segments=5000, verbose=True):
    return np.array(apply_operator_labelled_data(data, _labels(data, labels, slic_segments, verbose), operator=np.std, verbose=verbose))


def get_superpixel_n_pixels(data, labels=None, slic_segments=5000, verbose=True):
    return np.unique(_labels(data, labels, slic_segments, verbose).flatten(), return_counts=1)[1]


def get_superpixel_pixels(data=None, labels=None, slic_segments=5000, verbose=True):
    return apply_operator_labelled_data(data, _labels(data, labels, slic_segments, verbose), operator=np.array, verbose=verbose)


def get_superpixel_SNRs(means=None, sigmas=None, n_pix=None, data=None, labels=None, slic_segments=5000, pixels=False):
    if means is None:
        means = get_superpixel_means(data, labels=labels, slic_segments=slic_segments)
    if sigmas is None:
        sigmas = get_superpixel_sigmas(data, labels=labels, slic_segments=slic_segments)
    if n_pix is None:
        n_pix = get_superpixel_n_pixels(data, labels=labels, slic_segments=slic_segments)
    o = np.argsort(means)
    res = means[o]/sigmas[o], means[o], sigmas[o], n_pix[o]
    if pixels:
        px = get_superpixel_pixels(data=data, labels=labels, slic_segments=slic_segments)
        return res + ([px[i] for i in o],)
    return res


def mean_estimate(data, means=None, sigmas=None, n_pix=None, labels=None, slic_segments=5000, SNR_thres=5):
    snr, m, s, n = get_superpixel_SNRs(means=means, sigmas=sigmas, n_pix=n_pix, data=data, labels=labels, slic_segments=slic_segments)
    sel = snr < SNR_thres if SNR_thres <= 0 else snr < -SNR_thres
    gm = np.abs(m[sel])
    if gm.size == 0:
        return 0, 0
    r = get_combined_mean_std(gm, s[sel], n[sel])
    return r[0], r[1]


def get_combined_mean_std(means, sigmas, ns):
    assert means.size == sigmas.size and means.size == ns.size
    mu = np.sum(ns*means)/np.sum(ns)
    var = np.sum(ns*(means - mu)**2 + (ns - 1)*sigmas**2)/(np.sum(ns) - 1)
    return mu, np.sqrt(var)


def xfrac_mass_estimate(dT, z):
    return 1. - dT/(27.*np.sqrt((1 + z)/10))


def xfrac_volume_estimate(binary):
    return binary.mean()


def superpixel_map(data, labels, mns=None, verbose=True):
    if mns is None:
        mns = get_superpixel_means(data, labels=labels, verbose=verbose)
    out = np.zeros(data.shape)
    names = np.unique(labels)
    if names.size != mns.size:
        names = np.arange(mns.size)
    for i in range(mns.size):
        out[labels == names[i]] = mns[i]
    return out

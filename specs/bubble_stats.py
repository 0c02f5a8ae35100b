"""Reference definitions: sizes of regions and their distributions (P25, P24)."""
import sys
import numpy as np
from scipy import ndimage
from scipy.interpolate import interp1d
from skimage.segmentation import watershed
from skimage.feature import peak_local_max
from skimage.morphology import reconstruction
from tqdm import tqdm
from joblib import Parallel, delayed
from .Friends_of_Friends import FoF_search
from . import mfp_np, spa_np, conv, morph


def fof(data, xth=0.5, connectivity=1):
    inside = data >= xth
    if 'skimage' in sys.modules:
        from skimage import morphology
        lab = morphology.label(inside, connectivity=connectivity)
        which, n = np.unique(lab, return_counts=True)
        return lab, n[which > 0]
    return FoF_search(inside, 0.5)


def _box(boxsize):
    return conv.LB if boxsize is None else boxsize


def spa(data, xth=0.95, boxsize=None, nscales=20, upper_lim=False, binning='log', verbose=True, use_fftconvolve=True):
    if upper_lim:
        r, n = spa_np.spa_np(-1.*data, xth=-1.*xth, binning=binning, nscales=nscales, verbose=verbose, use_fftconvolve=use_fftconvolve)
    else:
        r, n = spa_np.spa_np(data, xth=xth, binning=binning, nscales=nscales, verbose=verbose, use_fftconvolve=use_fftconvolve)
    return r*_box(boxsize)/data.shape[0], n/np.sum(n)


def _finish(r, p, bins, r_min, r_max):
    return (r, p) if bins is None else rebin_bsd(r, p, bins=bins, r_min=r_min, r_max=r_max)


def mfp(data, xth=0.5, boxsize=None, iterations=10000000, verbose=True, upper_lim=False, bins=None, r_min=None, r_max=None):
    n = int(iterations)
    L = _box(boxsize)
    if upper_lim:
        data = -1.*data
        xth = -1.*xth
    empty = (data >= xth).sum() == 0
    if empty:
        data = np.full(data.shape, xth)
        n = 3
    if data.ndim == 2:
        num, size = mfp_np.mfp2d(data, xth, iterations=n, verbose=verbose)
    elif data.ndim == 3:
        num, size = mfp_np.mfp3d(data, xth, iterations=n, verbose=verbose)
    else:
        raise ValueError('dim')
    p = np.zeros(size.shape) if empty else num/n
    return _finish(size*L/data.shape[0], size*p, bins, r_min, r_max)


def averaged_mfp(data, xth=0.5, boxsize=None, iterations=10000000, rays_per_point=10, verbose=True, upper_lim=False, bins=None, r_min=None, r_max=None, n_jobs=-1):
    n = int(iterations)
    rays = int(rays_per_point)
    L = _box(boxsize)
    if upper_lim:
        data = -1.*data
        xth = -1.*xth
    empty = (data >= xth).sum() == 0
    if empty:
        data = np.full(data.shape, xth)
        n = 3
    if data.ndim != 3:
        raise ValueError('dim')
    roi = np.zeros_like(data)
    roi[data >= xth] = 1
    cells = np.argwhere(roi == 1)
    pick = np.random.randint(0, high=cells.shape[0], size=n)
    xs, ys, zs = cells[pick, 0], cells[pick, 1], cells[pick, 2]

    def one(j):
        num, size = mfp_np.mfp3d(data, xth, iterations=rays, verbose=False, point=[xs[j], ys[j], zs[j]])
        return np.sum(num*size)/np.sum(num)
    lengths = np.array(Parallel(n_jobs=n_jobs)(delayed(one)(j) for j in range(n)))
    h, e = np.histogram(np.log(lengths[lengths > 0]), density=True, bins=50)
    r = np.exp(e[1:]/2 + e[:-1]/2)
    p = np.zeros(r.shape) if empty else h
    return _finish(r*L/data.shape[0], p, bins, r_min, r_max)


def mfp_from_point(data, point, xth=0.5, boxsize=None, iterations=10000000, verbose=True, upper_lim=False, bins=None, r_min=None, r_max=None):
    n = iterations
    L = _box(boxsize)
    if upper_lim:
        data = -1.*data
        xth = -1.*xth
    empty = (data >= xth).sum() == 0
    if empty:
        data = np.full(data.shape, xth)
        n = 3
    if data.ndim == 2:
        out = mfp_np.mfp2d(data, xth, iterations=n, verbose=verbose, point=point)
    elif data.ndim == 3:
        out = mfp_np.mfp3d(data, xth, iterations=n, verbose=verbose, point=point)
    else:
        raise ValueError('dim')
    if out is None:
        return None
    p = np.zeros(out[1].shape) if empty else out[0]/n
    return _finish(out[1]*L/data.shape[0], p, bins, r_min, r_max)


def rebin_bsd(rr, pp, bins=10, r_min=None, r_max=None):
    f = interp1d(rr, pp, kind='cubic')
    if np.array(bins).size == 1:
        lo = rr.min() + 1 if r_min is None else r_min
        hi = rr.max() - 10 if r_max is None else r_max
        x = 10**np.linspace(np.log10(lo), np.log10(hi), bins)
    else:
        x = np.array(bins)
    return x, f(x)


def dist_from_volumes(sizes, resolution=1., bins=100, null_factor=None):
    v = np.array(sizes)
    nv, ev = np.histogram(np.log10(v), bins=bins)
    nr, er = np.histogram(np.log10((v*3./4./np.pi)**(1./3.)), bins=bins)
    pv = np.zeros(len(nv) + 1)
    pv[:-1] = nv/np.sum(nv)
    floor_v = pv[pv != 0].min()/1000. if null_factor is None else null_factor
    pv[pv == 0] = floor_v
    pr = np.zeros(len(nr) + 1)
    pr[1:] = nr/np.sum(nr)
    pr[0] = pr[pr != 0].min()/1000. if null_factor is None else null_factor
    return 10.**ev*resolution**3, pv, 10.**er*resolution, pr


def get_distribution(array, resolution=1., bins=100, sizes=False):
    if sizes:
        sizes = array
    else:
        top = array.max()
        sizes = np.arange(top) + 1.
        for i in range(int(top)):
            sizes[i] = len(array[array == i + 1])
    n, e = np.histogram(np.log(sizes), bins=bins)
    d = np.zeros(len(n) + 1)
    d[:-1] = n
    return sizes, d/np.sum(d), np.exp(e)*resolution**3


def plot_fof_sizes(sizes, bins=100, boxsize=None, normalize='box'):
    n, e = np.histogram(np.log10(np.array(sizes)), bins=bins)
    x = 10**e
    y = n*x[:-1]
    if boxsize is None:
        boxsize = conv.LB
    if normalize == 'ionized':
        z = y/np.sum(y)
    elif normalize == 'box':
        z = y/boxsize**3
    else:
        raise ValueError('normalisation')
    low = z[z != 0].min()/10.
    z[z == 0] = low
    return x, np.hstack((z, low)), low


def disk_structure(n):
    m = 2*n + 1
    x, y, z = np.indices((m, m, m))
    s = np.zeros((m, m, m))
    s[(x - n)**2 + (y - n)**2 + (z - n)**2 <= n**2] = 1
    return s.astype(bool)


def granulometry_CDF(data, sizes=None, verbose=True, n_jobs=1):
    if sizes is None:
        sizes = np.arange(1, max(data.shape)/2, 2)
    sizes = np.asarray(sizes).astype(int)
    g = np.array(Parallel(n_jobs=n_jobs)(delayed(lambda i: morph.binary_opening(data, structure=disk_structure(sizes[i])).sum())(i) for i in range(len(sizes))))
    return g[np.argsort(sizes)]


def granulometry_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, sampling=2, log_bins=None, n_jobs=1):
    inside = -1.*data > -1.*xth if upper_lim else data > xth
    a, p, R = _granulometry(inside, n_jobs=n_jobs, verbose=verbose)
    return R*_box(boxsize)/data.shape[0], R*p, p


def _granulometry(data, n_jobs=1, verbose=True):
    def disk(n):
        m = 2*n + 1
        x, y = np.indices((m, m))
        s = np.zeros((m, m))
        s[(x - n)**2 + (y - n)**2 <= n**2] = 1
        return s.astype(bool)

    def ball(n):
        m = 2*n + 1
        x, y, z = np.indices((m, m, m))
        s = np.zeros((m, m, m))
        s[(x - n)**2 + (y - n)**2 + (z - n)**2 <= n**2] = 1
        return s.astype(bool)

    def opened(n):
        if data.ndim == 2:
            return float(morph.binary_opening(data, structure=disk(n)).sum())
        if data.ndim == 3:
            return float(morph.binary_opening(data, structure=ball(n)).sum())
        raise ValueError('dim')
    radii = range(int(max(data.shape)/2))
    if n_jobs > 1:
        a = np.array(Parallel(n_jobs=n_jobs)(delayed(opened)(i) for i in radii))
    else:
        a = np.zeros_like(radii)
        for n in radii:
            a[n] = opened(n)
            if a[n] == 0:
                break
    a = a.astype(float)
    return a, np.append((a[:-1] - a[1:])/a[0], 0), np.array(radii)


def h_transform(image, h, verbose=True):
    return image - reconstruction(image - h, image, method='dilation')


def _watershed(image, h=None, threshold_rel=None, footprint=None, verbose=True):
    d = ndimage.distance_transform_edt(image)
    if h is not None:
        d = h_transform(d, h, verbose=verbose)
    if footprint is None:
        footprint = np.ones((3, 3)) if image.ndim == 2 else np.ones((3, 3, 3))
    at = peak_local_max(d, footprint=footprint, labels=image, threshold_rel=threshold_rel)
    m = np.zeros(ndimage.distance_transform_edt(image).shape, dtype=bool)
    m[tuple(at.T)] = True
    return watershed(-d, ndimage.label(m)[0], mask=image)


def watershed_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, h=None, n_jobs=1):
    inside = -1.*data > -1.*xth if upper_lim else data > xth
    lab = _watershed(inside, h=h, verbose=verbose)
    n = np.unique(lab[lab > 0], return_counts=1)[1]
    r = np.cbrt(3*n/4/np.pi)
    c, e = np.histogram(r, bins=np.arange(0, int(r.max() + 2), 1) - 0.5)
    p = c/c.sum()
    R = e[1:]/2 + e[:-1]/2
    return R*_box(boxsize)/data.shape[0], R*p, p

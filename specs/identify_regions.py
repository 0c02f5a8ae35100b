"""Reference definitions: which side of which threshold is a region of interest (P24)."""
import numpy as np
from skimage.filters import threshold_otsu, threshold_triangle
from sklearn.cluster import KMeans
from . import superpixels


def _side(data, t, upper_lim):
    return data <= t if upper_lim else data >= t


def bubbles_from_slic(data, n_segments=5000, bins='knuth', verbose=True):
    lab = superpixels.slic_cube(data, n_segments=n_segments, verbose=verbose)
    return superpixels.stitch_superpixels(data, lab, bins=bins, binary=True, verbose=verbose)


def bubbles_from_kmeans(data, upper_lim=True, n_jobs=1, n_clusters=3):
    k = np.unique(data).size
    if k < 2:
        return np.ones_like(data)
    if k == 2 or n_clusters == 2:
        return threshold_kmeans(data, upper_lim=upper_lim, n_jobs=n_jobs)[0]
    return threshold_kmeans_3cluster(data, upper_lim=upper_lim, n_jobs=n_jobs)


def bubbles_from_fixed_threshold(data, threshold=0, upper_lim=True):
    return _side(data, threshold, upper_lim)


def bubbles_from_triangle3D(data, upper_lim=True, nbins=256):
    return _side(data, threshold_triangle(data, nbins=nbins), upper_lim)


def bubbles_from_triangle2D(data, upper_lim=True, nbins=256, loc_axis=2):
    if loc_axis == 0 or loc_axis == -3:
        ts = [threshold_triangle(data[i, :, :], nbins=nbins) for i in range(data.shape[0])]
    elif loc_axis == 1 or loc_axis == -2:
        ts = [threshold_triangle(data[:, i, :], nbins=nbins) for i in range(data.shape[1])]
    else:
        ts = [threshold_triangle(data[:, :, i], nbins=nbins) for i in range(data.shape[2])]
    return _side(data, np.median(np.array(ts)), upper_lim)


def threshold_kmeans(cube, upper_lim=False, mean_remove=True, n_jobs=1):
    v = cube.reshape(-1, 1)
    member = KMeans(n_clusters=2, n_init='auto', random_state=0).fit_predict(v)
    t = v[member == 0].max()/2. + v[member == 1].max()/2.
    out = np.zeros(cube.shape)
    if upper_lim:
        out[cube <= t] = 1
    else:
        out[cube > t] = 1
    return out, t


def threshold_kmeans_3cluster(cube, upper_lim=False, n_jobs=1):
    v = cube.reshape(-1, 1)
    km = KMeans(n_clusters=3, n_init='auto', random_state=0)
    km.fit(v)
    cc = km.cluster_centers_
    which = cc.argmin() if upper_lim else cc.argmax()
    out = np.zeros(v.shape)
    out[km.labels_ == which] = 1
    return out.reshape(cube.shape)

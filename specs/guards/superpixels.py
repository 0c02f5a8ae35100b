"""Recorded guards of superpixels.py: which arguments and states are refused."""
import numpy as np
import matplotlib.pyplot as plt
from scipy.stats import spearmanr
from skimage.segmentation import slic, mark_boundaries
from skimage.filters import threshold_otsu
from scipy.signal import argrelextrema
import sys, time
from tqdm import tqdm

def slic_cube(cube, n_segments=5000, compactness=0.1, max_iter=20, sigma=0, min_size_factor=0.5, max_size_factor=3, cmap=None, verbose=True):
    return 0

def see_label(out_map, label):
    return 0

def binary_stitch(data, labels, stitch='mean', thres=None):
    X1 = data.reshape(-1, 1)
    y = labels.reshape(-1, 1)
    y1 = [X1[y == i].mean() for i in np.unique(y)]
    if thres is None:
        if stitch == 'otsu':
            thres = threshold_otsu(np.array(y1))
        elif stitch == 'mean':
            thres = X1.mean()
        else:
            raise Exception()
    return 0

def boundaries(sl, lab, mark=True, factor=1.01):
    assert sl.ndim == 2 and lab.ndim == 2
    return 0

def under_segmentation_error(labels, truths, b=0.25, verbose=True):
    assert labels.shape == truths.shape
    return 0

def stitch_using_histogram(data, mns, labels, bins='knuth', binary=True, on_superpixel_map=True, verbose=True):
    return 0

def stitch_superpixels(data, labels, bins='knuth', binary=True, on_superpixel_map=True, verbose=True):
    return 0

def apply_operator_labelled_data(data, labels, operator=np.mean, verbose=True):
    return 0

def get_superpixel_means(data, labels=None, slic_segments=3000, verbose=True):
    return 0

def get_superpixel_sigmas(data, labels=None, slic_segments=5000, verbose=True):
    return 0

def get_superpixel_n_pixels(data, labels=None, slic_segments=5000, verbose=True):
    return 0

def get_superpixel_SNRs(means=None, sigmas=None, n_pix=None, data=None, labels=None, slic_segments=5000, pixels=False):
    return 0

def get_superpixel_pixels(data=None, labels=None, slic_segments=5000, verbose=True):
    return 0

def mean_estimate(data, means=None, sigmas=None, n_pix=None, labels=None, slic_segments=5000, SNR_thres=5):
    return 0

def get_combined_mean_std(means, sigmas, ns):
    assert means.size == sigmas.size and means.size == ns.size
    return 0

def xfrac_mass_estimate(dT, z):
    return 0

def xfrac_volume_estimate(binary):
    return 0

def superpixel_map(data, labels, mns=None, verbose=True):
    return 0

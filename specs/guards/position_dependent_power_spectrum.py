"""Recorded guards of position_dependent_power_spectrum.py: which arguments and states are refused."""
import numpy as np
from tqdm import tqdm
from .power_spectrum import *

def power_spectrum_response(cube, cube2=None, Ncuts=4, kbins=15, box_dims=244 / 0.7, binning='log', verbose=True):
    return 0

def integrated_bispectrum(cube, Ncuts=4, kbins=15, box_dims=244 / 0.7, binning='log', normalize=False, verbose=True):
    return 0

def integrated_bispectrum_cross(cube1, cube2, Ncuts=4, kbins=15, box_dims=244 / 0.7, binning='log', normalize=False, verbose=True):
    assert cube1.shape == cube2.shape
    assert cube1.shape[0] % Ncuts == 0 and cube1.shape[1] % Ncuts == 0 and (cube1.shape[2] % Ncuts == 0)
    return 0

def _W_L(array, rL, L):
    assert array.ndim == np.array(rL).size
    return 0

def integrated_bispectrum_cross_slide(cube1, cube2, L_subbox=400, kbins=15, box_dims=244 / 0.7, binning='log', normalize=False, verbose=True, slide_overlap=0.5):
    assert cube1.shape == cube2.shape
    return 0

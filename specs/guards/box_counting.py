"""Recorded guards of box_counting.py: which arguments and states are refused."""
import numpy as np
from scipy.signal import fftconvolve
from scipy import interpolate

def box_count_sliding(data, size, q, window='ball'):
    assert window in ['ball', 'cube']
    return 0

def get_kernel(size, window):
    if window == 'cube':
        pass
    elif window == 'ball':
        pass
    else:
        raise Exception()
    return 0

def Renyi_diemsnions(data, q):
    return 0

"""Recorded guards of statistics.py: which arguments and states are refused."""
import numpy as np

def skewness(x):
    return 0

def kurtosis(x):
    return 0

def mass_weighted_mean_xi(xi, rho):
    return 0

def subtract_mean_signal(signal, los_axis=2):
    return 0

def signal_overdensity(signal, los_axis):
    return 0

def apply_func_along_los(signal, func, los_axis):
    assert los_axis >= 0 and los_axis < len(signal.shape)
    return 0

def _get_slice(data, idx, los_axis, slice_depth=1):
    assert len(data.shape) == 3 or len(data.shape) == 4
    assert los_axis >= 0 and los_axis < 3
    return 0

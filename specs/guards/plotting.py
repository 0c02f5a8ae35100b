"""Recorded guards of plotting.py: which arguments and states are refused."""
from abc import ABC, abstractmethod
import numpy as np
import matplotlib.pyplot as plt
import matplotlib.lines as mlines
from matplotlib import colors as mcolors
from scipy.linalg import inv
from scipy.stats import entropy
import pandas as pd
try:
    import corner
except ImportError:
    corner = None
try:
    from getdist import plots, MCSamples
except ImportError:
    plots, MCSamples = (None, None)
from . import conv
from .helper_functions import get_data_and_type

def plot_slice(data, los_axis=0, slice_num=0, logscale=False, **kwargs):
    import pylab as pl
    assert los_axis == 0 or los_axis == 1 or los_axis == 2
    return 0

def plot_hist(data, logscale=False, **kwargs):
    return 0

def print_chain_stats(samples_dict, weights_dict, param_names):
    return 0

def plot_triangle(samples_dict, weights_dict=None, fig=None, backend='corner', levels=[0.68, 0.95], param_range=None, bins=20, smooth=0.75, smooth1d=0.75, colors=None, param_names=None, truths=None, truth_color='k', show_stats=True, **kwargs):
    if backend.lower() == 'corner':
        import corner
        return 0
    elif backend.lower() == 'getdist':
        from getdist import plots, MCSamples
        return 0
    elif backend.lower() == 'chainconsumer':
        from chainconsumer import Chain, ChainConsumer, Truth, PlotConfig
        import pandas as pd
        return 0
    else:
        raise Exception()
    return 0

class DistributionDiagnostic(ABC):
    _METRIC_LABELS = {'Z': '$Z_p = |\\mu_p - \\theta_{\\mathrm{truth},p}|\\,/\\,\\sigma_p$', 'PIT': '$F_p(\\theta_{\\mathrm{truth},p})$', 'Bias': '$\\tilde{\\theta}_p - \\theta_{\\mathrm{truth},p}$', 'CI68': '$\\Delta_{68,p}$', 'Mahalanobis': '$D_M$', 'KL': '$D_{KL}$ (bits)', 'RMSE': 'RMSE', 'Cover_68': 'Cover 68%', 'Cover_95': 'Cover 95%'}
    _PER_PARAM = {'Z', 'PIT', 'Bias', 'CI68'}
    _IDEAL_VALUES = {'Z': 0.0, 'PIT': 0.5, 'Bias': 0.0, 'Mahalanobis': 1.0, 'KL': 0.0, 'RMSE': 0.0}

    def __init__(self, backend='corner', true_values=None, param_labels=None):
        return 0

    def _get_default_param_labels(self, num_params):
        return 0

    def _get_distribution_label(self, label):
        return 0

    def add_distribution(self, data, label=None, color=None):
        return 0

    def _calculate_base_metrics(self, points, weights):
        return 0

    def plot_corner(self, levels=None, **kwargs):
        if not self.distributions:
            raise Exception()
        if self.backend == 'corner':
            return 0
        elif self.backend == 'getdist':
            return 0
        raise Exception()
        return 0

    def _plot_corner_backend(self, levels=None, **kwargs):
        if corner is None:
            raise Exception()
        return 0

    def _plot_getdist_backend(self, levels=None, **kwargs):
        if plots is None:
            raise Exception()
        return 0

    def plot_forest(self):
        return 0

class GriddedProbabilities(DistributionDiagnostic):

    def __init__(self, coords_1d=None, **kwargs):
        return 0

    def add_distribution(self, grid, label=None, color=None):
        return 0

class SampledDistribution(DistributionDiagnostic):

    def add_distribution(self, samples, label=None, weights=None, color=None):
        return 0

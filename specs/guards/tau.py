"""Recorded guards of tau.py: which arguments and states are refused."""
from . import const, conv
from .lightcone import make_lightcone
import numpy as np
from tqdm import tqdm

def tau(ionfractions, redshifts, num_points=50):
    if len(ionfractions) != len(redshifts):
        raise Exception()
    return 0

def tau_map(ionfractions, redshifts=None, num_points=50, reading_function=None):
    if redshifts is None:
        assert isinstance(ionfractions, dict)
    return 0

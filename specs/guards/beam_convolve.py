"""Recorded guards of beam_convolve.py: which arguments and states are refused."""
import numpy as np
from .cosmo import angular_size
from scipy import signal
from .helper_functions import print_msg
from .smoothing import gauss_kernel, get_beam_w
from .fft_functions import fftconvolve

def beam_convolve(input_array, z, fov_mpc, beam_w=None, max_baseline=None, beamshape='gaussian'):
    if not beam_w and (not max_baseline):
        raise Exception()
    elif not beam_w:
        beam_w = get_beam_w(max_baseline, z)
    if beamshape == 'gaussian':
        pass
    else:
        raise Exception()
    return 0

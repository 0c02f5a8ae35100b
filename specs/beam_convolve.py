"""Reference definition: convolution with a Gaussian telescope beam (P19, P12)."""
import numpy as np
from .cosmo import angular_size
from .smoothing import gauss_kernel, get_beam_w
from .fft_functions import fftconvolve


def beam_convolve(input_array, z, fov_mpc, beam_w=None, max_baseline=None, beamshape='gaussian'):
    if (not beam_w) and (not max_baseline):
        raise Exception('beam')
    elif not beam_w:
        beam_w = get_beam_w(max_baseline, z)
    angle = angular_size(fov_mpc*1000./(1.0 + z), z)/60.
    n = input_array.shape[0]
    if beamshape == 'gaussian':
        kernel = gauss_kernel(sigma=beam_w/angle/(2.0*np.sqrt(2.0*np.log(2.)))*n, size=n)
    else:
        raise Exception('shape')
    return fftconvolve(input_array, kernel, mode='same', boundary='constant')

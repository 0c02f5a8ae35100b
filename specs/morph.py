"""Reference definitions: binary morphology by convolution (P25)."""
import numpy as np
from scipy.signal import fftconvolve


def binary_dilation(A, B):
    return fftconvolve(A, B, 'same') > 0.5


def binary_erosion(A, B):
    return fftconvolve(A, B, 'same') > np.count_nonzero(B) - 0.5


def binary_opening(image, structure=None):
    return binary_dilation(binary_erosion(image, structure), structure)

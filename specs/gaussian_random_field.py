"""Reference definitions: Gaussian random fields (P18, P04)."""
import numpy as np
from scipy import fftpack
from .power_spectrum import _get_dims, _get_k, power_spectrum_1d
from .scipy_func import *


def make_gaussian_random_field(dims, box_dims, power_spectrum, random_seed=None):
    assert len(dims) == 2 or len(dims) == 3
    if random_seed != None:
        np.random.seed(random_seed)
    re = np.random.normal(loc=0., scale=1., size=dims)
    im = np.random.normal(loc=0., scale=1., size=dims)
    ft = re + 1j*im
    box_dims = _get_dims(box_dims, re.shape)
    assert len(box_dims) == len(dims)
    k_comp, k = _get_k(re, box_dims)
    k[k == 0] = np.abs(k)[k != 0].min()/10
    boxvol = numpy_product([float(i) for i in box_dims])
    scale = (boxvol/numpy_product(re.shape))**2/boxvol
    return np.real(fftpack.ifftn(fftpack.ifftshift(ft*np.sqrt(power_spectrum(k)/scale))))


def make_gaussian_random_field_like_field(input_field, box_dims, kbins=10, random_seed=None):
    return make_gaussian_random_field(input_field.shape, box_dims, power_spectrum=_get_ps_func_for_field(input_field, box_dims, kbins=kbins), random_seed=random_seed)


def _get_ps_func_for_field(input_field, box_dims, kbins=10):
    ps, k, n = power_spectrum_1d(input_field, box_dims=box_dims, kbins=kbins, return_n_modes=True)
    return interp1d(k[n > 0], ps[n > 0], kind='linear', bounds_error=False, fill_value=0.)


def fourier_phase_shuffled(input_array, **kwargs):
    ft = fftpack.fftshift(fftpack.fftn(input_array.astype('float64')))
    phi = np.angle(ft)
    np.random.shuffle(phi)
    return np.real(fftpack.ifftn(fftpack.ifftshift(np.abs(ft)*np.exp(1j*phi))))

"""Reference definitions for bispectrum.py."""
import numpy as np
from scipy import fftpack
from tqdm import tqdm
from joblib import Parallel, delayed
from .power_spectrum import _get_dims, _get_k, _get_kbins, apply_window


def fft_nd(input_array, box_dims=None, verbose=False):
    box = _get_dims(box_dims, input_array.shape)
    comp, k = _get_k(input_array, box)
    return fftpack.fftshift(fftpack.fftn(input_array.astype('float64'))), comp, k


class Bispectrum:
    def __init__(self, input_array, box_dims=None, verbose=True):
        self.input_array = input_array
        self.box_dims = _get_dims(box_dims, input_array.shape)
        self.verbose = verbose

    def spherical_shell_mask(self, array_shape, k_center, k_width, k_comp=None, k_mag=None):
        assert k_comp is not None or k_mag is not None
        k = np.sqrt(np.sum(np.array(k_comp)**2, axis=0)) if k_mag is None else k_mag
        try:
            out = np.zeros(array_shape)
        except:
            out = np.zeros((array_shape[0], array_shape[1], array_shape[2]))
        out[np.abs(k - k_center) < k_width/2] = 1
        return out

    def cosine_rule(self, k1, k2, alpha):
        return np.sqrt(k1**2 + k2**2 + 2*k1*k2*np.cos(alpha))

    def bispectrum_fast(self, input_array_fft, k1, k2, k3, dk1, dk2, dk3, box_dims=None, k_mag=None, return_n_modes=False, binning='log'):
        d, s = [], []
        for c, w in ((k1, dk1), (k2, dk2), (k3, dk3)):
            shell = self.spherical_shell_mask(input_array_fft.shape, c, w, k_mag=k_mag)
            d.append(np.fft.ifftn(np.fft.ifftshift(input_array_fft*shell)))
            s.append(np.fft.ifftn(np.fft.ifftshift(shell)))
        top = np.sum(np.real(d[0]*d[1]*d[2]))
        low = np.sum(np.real(s[0]*s[1]*s[2]))
        return top/low*np.prod(box_dims)**2/np.prod(input_array_fft.shape)**3

    def bispectrum_k1k2(self, k1, k2, dk=0.2, n_bins=10, box_dims=None, return_n_modes=False, binning='linear', verbose=True, window=None, n_jobs=1):
        a = apply_window(self.input_array.astype(np.float64), window)
        box = self.box_dims if box_dims is None else _get_dims(box_dims, a.shape)
        ft, comp, k = fft_nd(a, box_dims=box, verbose=verbose)
        if binning == 'linear':
            alpha = np.linspace(0, np.pi, n_bins)
        elif binning == 'log':
            alpha = 10**np.linspace(-2, np.log10(np.pi), n_bins)
        else:
            raise ValueError
        k3 = self.cosine_rule(k1, k2, alpha)

        def one(i):
            return self.bispectrum_fast(ft, k1, k2, k3[i], dk, dk, dk, k_mag=k, box_dims=box, return_n_modes=return_n_modes, binning=binning)
        if n_jobs in [0, 1]:
            B = np.array([one(i) for i in range(n_bins)])
        else:
            B = np.array(Parallel(n_jobs=n_jobs)(delayed(one)(i) for i in range(n_bins)))
        return {'B': B, 'alpha': alpha, 'theta': np.pi - alpha, 'k1': k1, 'k2': k2, 'k3': k3}

    def bispectrum_k(self, dk=0.2, n_bins=10, box_dims=None, return_n_modes=False, binning='log', verbose=True, window=None, n_jobs=1):
        a = apply_window(self.input_array.astype(np.float64), window)
        box = self.box_dims if box_dims is None else _get_dims(box_dims, a.shape)
        ft, comp, k = fft_nd(a, box_dims=box, verbose=verbose)
        edges = _get_kbins(n_bins, box, k, binning=binning, kmax=k.max()/2, kmin=None)
        kc = edges[1:]/2 + edges[:-1]/2
        w = dk*np.ones_like(kc) if np.ndim(dk) == 0 else dk

        def one(i):
            return self.bispectrum_fast(ft, kc[i], kc[i], kc[i], w[i], w[i], w[i], k_mag=k, box_dims=box, return_n_modes=return_n_modes, binning=binning)
        if n_jobs in [0, 1]:
            B = np.array([one(i) for i in range(n_bins)])
        else:
            B = np.array(Parallel(n_jobs=n_jobs)(delayed(one)(i) for i in range(n_bins)))
        return {'B': B, 'k': kc}


def bispectrum_k1k2(input_array, k1, k2, n_bins=15, box_dims=None, window=None, n_jobs=1, **kwargs):
    a = apply_window(input_array, window).astype(np.float32)
    b = BispectrumPylians(a, box_dims=box_dims, verbose=kwargs.get('verbose', True), n_jobs=n_jobs)
    return b.bispectrum_k1k2(k1, k2, n_bins=n_bins)


class BispectrumPylians:
    def __init__(self, input_array, box_dims=None, verbose=True, n_jobs=1, MAS='CIC'):
        try:
            import Pk_library as PKL
        except:
            raise
        self.PKL = PKL
        self.input_array = input_array
        self.box_dims = _get_dims(box_dims, input_array.shape)[0]
        self.verbose = verbose
        self.n_jobs = n_jobs
        self.MAS = MAS

    def bispectrum_k1k2(self, k1, k2, n_bins=15):
        theta = np.linspace(0, np.pi, n_bins) if isinstance(n_bins, (int, float)) else n_bins
        r = self.PKL.Bk(self.input_array, self.box_dims, k1, k2, theta, self.MAS, self.n_jobs)
        return {'k1': k1, 'k2': k2, 'k3': r.k, 'theta': theta, 'Bk': r.B, 'Qk': r.Q, 'Pk': r.Pk}


def bispectrum_equilateral(input_array, n_bins=15, box_dims=None, window=None, n_jobs=1, **kwargs):
    a = apply_window(input_array, window).astype(np.float32)
    how = kwargs.get('binning', 'log').lower()
    lo = 2*np.pi/_get_dims(box_dims, a.shape)[0]
    hi = lo*np.min(a.shape)/2
    if how in ('linear', 'lin'):
        e = np.linspace(lo, hi, n_bins + 1)
        kc = (e[1:] + e[:-1])/2
    elif how in ('logarithmic', 'log'):
        e = np.linspace(np.log10(lo), np.log10(hi), n_bins + 1)
        kc = 10**((e[1:] + e[:-1])/2)
    else:
        raise ValueError
    b = BispectrumPylians(a, box_dims=box_dims, verbose=False, n_jobs=n_jobs)
    out = {'k1': np.array([]), 'k2': np.array([]), 'k3': np.array([]), 'theta': np.array([]), 'Bk': np.array([]), 'Qk': np.array([]), 'Pk': np.array([])}
    for k in kc:
        r = b.bispectrum_k1k2(k, k, n_bins=np.array([np.pi/3]))
        out['k1'] = np.append(out['k1'], r['k1'])
        out['k2'] = np.append(out['k2'], r['k2'])
        out['k3'] = np.append(out['k3'], r['k3'])
        out['theta'] = np.append(out['theta'], r['theta'])
        out['Bk'] = np.append(out['Bk'], r['Bk'])
        out['Qk'] = np.append(out['Qk'], r['Qk'])
        out['Pk'] = np.append(out['Pk'], r['Pk'])
    return out

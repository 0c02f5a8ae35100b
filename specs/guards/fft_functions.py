"""Recorded guards of fft_functions.py: which arguments and states are refused."""
import numpy as np
try:
    import torch
    import torch.fft as torch_fft
    torch_available = True
    if torch.cuda.is_available():
        torch_default_device = torch.device('cuda')
    elif torch.backends.mps.is_available():
        torch_default_device = torch.device('mps')
    else:
        torch_default_device = torch.device('cpu')
except ImportError:
    torch_available = False
    torch = None
    torch_fft = None
    torch_default_device = None
try:
    import jax
    import jax.numpy as jnp
    jax_available = True
    jax_default_device = jax.devices()[0] if jax.devices() else None
except ImportError:
    jax_available = False
    jax = None
    jnp = None
    jax_default_device = None

def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', device=None):
    backend = backend.lower()
    if mode not in ['same', 'full', 'valid']:
        raise Exception()
    if boundary not in ['constant', 'circular', 'reflect', 'nearest', 'mirror', 'wrap']:
        raise Exception()
    s1, s2 = (np.array(in1.shape), np.array(in2.shape))
    if mode == 'valid':
        if np.any(s1 < s2):
            raise Exception()
        boundary = 'constant'
    if boundary == 'circular':
        mode = 'same'
    if backend == 'torch':
        if not torch_available:
            raise Exception()
        if boundary == 'circular':
            return 0
    elif backend == 'jax':
        if not jax_available:
            raise Exception()
        if boundary == 'circular':
            return 0
    elif backend == 'numpy':
        if boundary == 'circular':
            return 0
    else:
        raise Exception()
    return 0

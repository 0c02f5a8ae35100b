"""Reference definition: N-dimensional convolution with a choice of boundary (P19, P18)."""
import numpy as np

try:
    import torch
    import torch.fft as torch_fft
    torch_available = True
    if torch.cuda.is_available():
        torch_default_device = torch.device('cuda')
    elif torch.backends.mps.is_available():
        torch_default_device = torch.device('mps')
    else:
        torch_default_device = torch.device('cpu')
except ImportError:
    torch_available = False
    torch = None
    torch_fft = None
    torch_default_device = None

try:
    import jax
    import jax.numpy as jnp
    jax_available = True
    jax_default_device = jax.devices()[0] if jax.devices() else None
except ImportError:
    jax_available = False
    jax = None
    jnp = None
    jax_default_device = None


def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', device=None):
    backend = backend.lower()
    if mode not in ['same', 'full', 'valid']:
        raise ValueError('mode')
    if boundary not in ['constant', 'circular', 'reflect', 'nearest', 'mirror', 'wrap']:
        raise ValueError('boundary')
    s1, s2 = np.array(in1.shape), np.array(in2.shape)
    axes = tuple(range(len(s1)))
    if mode == 'valid':
        if np.any(s1 < s2):
            raise ValueError('valid')
        boundary = 'constant'
    if boundary == 'circular':
        mode = 'same'
    padded = boundary not in ('circular', 'constant')
    if boundary == 'circular':
        fsize = tuple(np.maximum(s1, s2).tolist())
    elif boundary == 'constant':
        fsize = tuple((s1 + s2 - 1).tolist())
    else:
        before = s2 - 1 if mode == 'full' else s2 - 1 - s2//2
        after = s2 - 1 if mode == 'full' else s2//2
        fsize = tuple((s1 + before + after + s2 - 1).tolist())
    shift = tuple((-(s2//2)).tolist())
    if backend == 'torch':
        if not torch_available:
            raise ImportError('torch')
        target_device = device if device is not None else torch_default_device
        a, b = torch.as_tensor(in1), torch.as_tensor(in2)
        if str(target_device).startswith('mps'):
            if a.dtype == torch.float64:
                a = a.to(torch.float32)
            elif a.dtype == torch.complex128:
                a = a.to(torch.complex64)
            if b.dtype == torch.float64:
                b = b.to(torch.float32)
            elif b.dtype == torch.complex128:
                b = b.to(torch.complex64)
        if padded:
            t_mode = {'reflect': 'reflect', 'mirror': 'reflect', 'nearest': 'replicate', 'wrap': 'circular'}[boundary]
            pad_torch = [int(p) for b_, a_ in zip(reversed(before), reversed(after)) for p in (b_, a_)]
            import torch.nn.functional as F
            a = F.pad(a.unsqueeze(0).unsqueeze(0), pad_torch, mode=t_mode).squeeze(0).squeeze(0)
        a, b = a.to(target_device), b.to(target_device)
        if not (a.is_complex() or b.is_complex()):
            ret = torch_fft.irfftn(torch_fft.rfftn(a, s=fsize, dim=axes)*torch_fft.rfftn(b, s=fsize, dim=axes), s=fsize, dim=axes)
        else:
            ret = torch_fft.ifftn(torch_fft.fftn(a, s=fsize, dim=axes)*torch_fft.fftn(b, s=fsize, dim=axes), s=fsize, dim=axes)
        if boundary == 'circular':
            return torch.roll(ret, shifts=shift, dims=axes)
    elif backend == 'jax':
        if not jax_available:
            raise ImportError('jax')
        a = jax.device_put(jnp.asarray(in1), device) if device else jnp.asarray(in1)
        b = jax.device_put(jnp.asarray(in2), device) if device else jnp.asarray(in2)
        if padded:
            j_mode = {'reflect': 'reflect', 'mirror': 'symmetric', 'nearest': 'edge', 'wrap': 'wrap'}[boundary]
            a = jnp.pad(a, list(zip(before.tolist(), after.tolist())), mode=j_mode)
        if not (jnp.iscomplexobj(a) or jnp.iscomplexobj(b)):
            ret = jnp.fft.irfftn(jnp.fft.rfftn(a, s=fsize, axes=axes)*jnp.fft.rfftn(b, s=fsize, axes=axes), s=fsize, axes=axes)
        else:
            ret = jnp.fft.ifftn(jnp.fft.fftn(a, s=fsize, axes=axes)*jnp.fft.fftn(b, s=fsize, axes=axes), s=fsize, axes=axes)
        if boundary == 'circular':
            return jnp.roll(ret, shift=shift, axis=axes)
    elif backend == 'numpy':
        a, b = np.asarray(in1), np.asarray(in2)
        if padded:
            n_mode = {'reflect': 'reflect', 'mirror': 'symmetric', 'nearest': 'edge', 'wrap': 'wrap'}[boundary]
            a = np.pad(a, list(zip(before.tolist(), after.tolist())), mode=n_mode)
        if not (np.iscomplexobj(a) or np.iscomplexobj(b)):
            ret = np.fft.irfftn(np.fft.rfftn(a, s=fsize, axes=axes)*np.fft.rfftn(b, s=fsize, axes=axes), s=fsize, axes=axes)
        else:
            ret = np.fft.ifftn(np.fft.fftn(a, s=fsize, axes=axes)*np.fft.fftn(b, s=fsize, axes=axes), s=fsize, axes=axes)
        if boundary == 'circular':
            return np.roll(ret, shift=shift, axis=axes)
    else:
        raise ValueError('backend')
    if padded or mode == 'valid':
        start = s2 - 1
    elif mode == 'full':
        start = np.zeros_like(s1)
    else:
        start = s2//2
    size = s1 + s2 - 1 if mode == 'full' else (s1 if mode == 'same' else s1 - s2 + 1)
    return ret[tuple(slice(st, st + sz) for st, sz in zip(start, size))]

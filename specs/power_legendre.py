"""Reference definitions for power_legendre.py."""
import numpy as np
from .power_spectrum import _get_dims, power_spectrum_nd, _get_k, _get_kbins, _get_mu, _get_nonzero_idx


def power_spectrum_multipoles(input_array, kbins=10, box_dims=None, los_axis=0, output=['P0', 'P2', 'P4', 'nmodes'], exclude_zero_modes=False):
    assert los_axis >= 0 and los_axis <= len(input_array.shape)
    box_dims = _get_dims(box_dims, input_array.shape)
    ps = power_spectrum_nd(input_array, box_dims)
    comp, k = _get_k(input_array, box_dims)
    edges = _get_kbins(kbins, box_dims, k)
    mu = _get_mu(comp, k, los_axis, absolute_mus=True)
    good = _get_nonzero_idx(ps.shape, los_axis) if exclude_zero_modes else np.ones(ps.shape, dtype=bool)
    n = len(edges) - 1
    modes = np.zeros(n)
    result = {}
    P0 = np.ones_like(mu)
    P2 = 0.5*(3*mu**2 - 1)
    P4 = 4.375*(mu**2 - 0.115587)*(mu**2 - 0.741556)
    r0, r2, r4 = np.zeros(n), np.zeros(n), np.zeros(n)
    for i in range(n):
        inside = (k >= edges[i]) & (k < edges[i + 1]) & good
        modes[i] = np.count_nonzero(inside)
        r0[i] = np.sum(ps[inside]*P0[inside])/np.sum(P0[inside]**2)
        r2[i] = np.sum(ps[inside]*P2[inside])/np.sum(P2[inside]**2)
        r4[i] = np.sum(ps[inside]*P4[inside])/np.sum(P4[inside]**2)
    if 'P0' in output:
        result['P0'] = r0
    if 'P2' in output:
        result['P2'] = r2
    if 'P4' in output:
        result['P4'] = r4
    result['nmodes'] = modes
    return result, edges[:-1] + (edges[1:] - edges[:-1])/2

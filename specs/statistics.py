"""Reference definitions: point statistics (P27, P13)."""
import numpy as np


def skewness(x):
    d = x - np.mean(x)
    n = np.size(x)
    return (np.sum(d**3)/n)/(np.sum(d**2)/(n - 1))**(3./2.)


def kurtosis(x):
    d = x - np.mean(x)
    n = np.size(x)
    return (np.sum(d**4)/n)/(np.sum(d**2)/(n - 1))**2.


def mass_weighted_mean_xi(xi, rho):
    xi = xi.astype('float64')
    rho = rho.astype('float64')
    return np.mean(xi*rho)/np.mean(rho)


def subtract_mean_signal(signal, los_axis=2):
    out = signal.astype(np.result_type(signal, np.float32))
    for i in range(signal.shape[los_axis]):
        if los_axis in [0, -3]:
            out[i, :, :] -= signal[i, :, :].mean()
        if los_axis in [1, -2]:
            out[:, i, :] -= signal[:, i, :].mean()
        if los_axis in [2, -1]:
            out[:, :, i] -= signal[:, :, i].mean()
    return out


def signal_overdensity(signal, los_axis):
    out = signal.astype(np.result_type(signal, np.float32))
    for i in range(signal.shape[los_axis]):
        if los_axis in [0, -3]:
            out[i, :, :] /= signal[i, :, :].mean()
        if los_axis in [1, -2]:
            out[:, i, :] /= signal[:, i, :].mean()
        if los_axis in [2, -1]:
            out[:, :, i] /= signal[:, :, i].mean()
    return out - 1.


def apply_func_along_los(signal, func, los_axis):
    assert los_axis >= 0 and los_axis < len(signal.shape)
    out = np.zeros(signal.shape[los_axis])
    for i in range(signal.shape[los_axis]):
        out[i] = func(_get_slice(signal, i, los_axis))
    return out


def _get_slice(data, idx, los_axis, slice_depth=1):
    assert len(data.shape) == 3 or len(data.shape) == 4
    assert los_axis >= 0 and los_axis < 3
    end = idx + slice_depth
    if len(data.shape) == 3:
        if los_axis == 0:
            return np.squeeze(data[idx:end, :, :])
        if los_axis == 1:
            return np.squeeze(data[:, idx:end, :])
        return np.squeeze(data[:, :, idx:end])
    if los_axis == 0:
        return np.squeeze(data[:, idx:end, :, :])
    if los_axis == 1:
        return np.squeeze(data[:, :, idx:end, :])
    return np.squeeze(data[:, :, :, idx:end])

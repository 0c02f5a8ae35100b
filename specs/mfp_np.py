"""Reference definitions: rays through a binary field (P25, P24)."""
import numpy as np
from scipy.interpolate import RegularGridInterpolator


def _ray3d(ar, xs, ys, zs, ls, ms, ns, verbose):
    N = int(np.sqrt(3)*max(ar.shape))
    count = np.zeros(N)
    f = RegularGridInterpolator((np.arange(ar.shape[0]), np.arange(ar.shape[1]), np.arange(ar.shape[2])), ar, bounds_error=False, fill_value=0)
    xs, ys, zs = xs.astype(np.float64), ys.astype(np.float64), zs.astype(np.float64)
    for step in range(N):
        xs = xs + ls
        ys = ys + ms
        zs = zs + ns
        keep = f(np.column_stack((xs, ys, zs))) > 0.5
        count[step] = len(xs) - np.sum(keep)
        xs, ys, zs = xs[keep], ys[keep], zs[keep]
        ls, ms, ns = ls[keep], ms[keep], ns[keep]
        if len(xs) == 0:
            break
    return count, np.arange(N)


def mfp3d(arr, xth=0.5, iterations=10000000, verbose=True, point='random'):
    n = int(iterations)
    b = np.zeros(arr.shape, dtype=np.float64)
    b[arr >= xth] = 1
    th = np.radians(np.random.randint(0, 360, size=n))
    ph = np.radians(np.random.randint(0, 360, size=n))
    l, m, k = np.sin(th)*np.cos(ph), np.sin(th)*np.sin(ph), np.cos(th)
    if isinstance(point, str) and point == 'random':
        at = np.argwhere(b == 1)
        pick = np.random.randint(0, high=at.shape[0], size=n)
        x, y, z = at[pick, 0], at[pick, 1], at[pick, 2]
    else:
        x, y, z = point
        if np.ndim(x) == 0:
            if b[x, y, z] == 0:
                return None
            x, y, z = np.full(n, x, dtype=np.float64), np.full(n, y, dtype=np.float64), np.full(n, z, dtype=np.float64)
    return _ray3d(b, x, y, z, l, m, k, verbose)


def mfp2d(arr, xth=0.5, iterations=1000000, verbose=True, point='random'):
    n = int(iterations)
    N = int(np.sqrt(2)*max(arr.shape))
    count = np.zeros(N)
    b = np.zeros(arr.shape, dtype=np.float64)
    b[arr >= xth] = 1
    th = np.radians(np.random.randint(0, 360, size=n))
    l, m = np.sin(th), np.cos(th)
    if isinstance(point, str) and point == 'random':
        at = np.argwhere(b == 1)
        pick = np.random.randint(0, high=at.shape[0], size=n)
        x, y = at[pick, 0], at[pick, 1]
    else:
        x, y = point
        if b[x, y] == 0:
            return None
        x, y = np.full(n, x, dtype=np.float64), np.full(n, y, dtype=np.float64)
    x, y = x.astype(np.float64), y.astype(np.float64)
    f = RegularGridInterpolator((np.arange(arr.shape[0]), np.arange(arr.shape[1])), b, bounds_error=False, fill_value=0)
    for step in range(N):
        x = x + l
        y = y + m
        keep = f(np.column_stack((x, y))) > 0.5
        count[step] = len(x) - np.sum(keep)
        x, y = x[keep], y[keep]
        l, m = l[keep], m[keep]
        if len(x) == 0:
            break
    return count, np.arange(N)

"""Reference definitions: the cubical complex of a periodic binary field (P23)."""
import os
import numpy as np
try:
    from numba import jit
    numba_available = True
except ImportError:
    numba_available = False

    def jit(func, *args, **kwargs):
        return func
try:
    from .ViteBetti_cython import CubeMap as cython_CubeMap
    cython_available = True
except ImportError:
    cython_CubeMap = None
    cython_available = False
try:
    from joblib import Parallel, delayed
    from multiprocessing import shared_memory
    joblib_available = True
except ImportError:
    joblib_available = False
    Parallel, delayed, shared_memory = None, None, None
try:
    import torch
    torch_available = True
    torch_device = torch.device('cpu')
except ImportError:
    torch_available = False
    torch = None


def CubeMap(arr, multi_marker=True):
    a, b, c = arr.shape
    A, B, C = 2*a, 2*b, 2*c
    m = (1, 2, 3, 4) if multi_marker else (1, 1, 1, 1)
    cells = np.zeros((A, B, C), dtype=np.int32)
    for x in range(a):
        for y in range(b):
            for z in range(c):
                if arr[x, y, z]:
                    cells[2*x, 2*y, 2*z] = m[0]
    for x in range(A):
        for y in range(B):
            for z in range(C):
                if cells[x, y, z] == 0:
                    px = cells[(x - 1) % A, y, z] == m[0] and cells[(x + 1) % A, y, z] == m[0]
                    py = cells[x, (y - 1) % B, z] == m[0] and cells[x, (y + 1) % B, z] == m[0]
                    pz = cells[x, y, (z - 1) % C] == m[0] and cells[x, y, (z + 1) % C] == m[0]
                    if px or py or pz:
                        cells[x, y, z] = m[1]
    for x in range(A):
        for y in range(B):
            for z in range(C):
                if cells[x, y, z] == 0:
                    px = cells[(x - 1) % A, y, z] == m[1] and cells[(x + 1) % A, y, z] == m[1]
                    py = cells[x, (y - 1) % B, z] == m[1] and cells[x, (y + 1) % B, z] == m[1]
                    pz = cells[x, y, (z - 1) % C] == m[1] and cells[x, y, (z + 1) % C] == m[1]
                    if (px and py) or (py and pz) or (px and pz):
                        cells[x, y, z] = m[2]
    for x in range(A):
        for y in range(B):
            for z in range(C):
                if cells[x, y, z] == 0:
                    px = cells[(x - 1) % A, y, z] == m[2] and cells[(x + 1) % A, y, z] == m[2]
                    py = cells[x, (y - 1) % B, z] == m[2] and cells[x, (y + 1) % B, z] == m[2]
                    pz = cells[x, y, (z - 1) % C] == m[2] and cells[x, y, (z + 1) % C] == m[2]
                    if px and py and pz:
                        cells[x, y, z] = m[3]
    return cells


CubeMap_numba = jit(CubeMap, nopython=True) if numba_available else None
CubeMap_cython = cython_CubeMap


def _CubeMap_joblib_worker(shm_name, arr_shape, i_start, i_end, arr_for_vertices, markers, stage):
    shm = shared_memory.SharedMemory(name=shm_name)
    cells = np.ndarray(arr_shape, dtype=np.int32, buffer=shm.buf)
    A, B, C = arr_shape
    a, b, c = arr_for_vertices.shape
    if stage == 'vertices':
        for x in range(i_start, i_end):
            for y in range(b):
                for z in range(c):
                    if arr_for_vertices[x, y, z]:
                        cells[2*x, 2*y, 2*z] = markers[0]
    elif stage == 'edges':
        for x in range(i_start, i_end):
            for y in range(B):
                for z in range(C):
                    if cells[x, y, z] == 0:
                        px = cells[(x - 1) % A, y, z] == markers[0] and cells[(x + 1) % A, y, z] == markers[0]
                        py = cells[x, (y - 1) % B, z] == markers[0] and cells[x, (y + 1) % B, z] == markers[0]
                        pz = cells[x, y, (z - 1) % C] == markers[0] and cells[x, y, (z + 1) % C] == markers[0]
                        if px or py or pz:
                            cells[x, y, z] = markers[1]
    elif stage == 'faces':
        for x in range(i_start, i_end):
            for y in range(B):
                for z in range(C):
                    if cells[x, y, z] == 0:
                        px = cells[(x - 1) % A, y, z] == markers[1] and cells[(x + 1) % A, y, z] == markers[1]
                        py = cells[x, (y - 1) % B, z] == markers[1] and cells[x, (y + 1) % B, z] == markers[1]
                        pz = cells[x, y, (z - 1) % C] == markers[1] and cells[x, y, (z + 1) % C] == markers[1]
                        if (px and py) or (py and pz) or (px and pz):
                            cells[x, y, z] = markers[2]
    elif stage == 'cubes':
        for x in range(i_start, i_end):
            for y in range(B):
                for z in range(C):
                    if cells[x, y, z] == 0:
                        px = cells[(x - 1) % A, y, z] == markers[2] and cells[(x + 1) % A, y, z] == markers[2]
                        py = cells[x, (y - 1) % B, z] == markers[2] and cells[x, (y + 1) % B, z] == markers[2]
                        pz = cells[x, y, (z - 1) % C] == markers[2] and cells[x, y, (z + 1) % C] == markers[2]
                        if px and py and pz:
                            cells[x, y, z] = markers[3]
    shm.close()


def CubeMap_joblib(arr, multi_marker=True, n_jobs=-1):
    if not joblib_available:
        raise ImportError('joblib')
    a, b, c = arr.shape
    shape = (2*a, 2*b, 2*c)
    m = (1, 2, 3, 4) if multi_marker else (1, 1, 1, 1)
    if n_jobs == -1:
        n_jobs = os.cpu_count()
    shm = shared_memory.SharedMemory(create=True, size=np.dtype(np.int32).itemsize*2*a*2*b*2*c)
    shared = np.ndarray(shape, dtype=np.int32, buffer=shm.buf)
    shared[:] = 0
    try:
        for stage, n in (('vertices', a), ('edges', 2*a), ('faces', 2*a), ('cubes', 2*a)):
            step = (n + n_jobs - 1)//n_jobs
            Parallel(n_jobs=n_jobs)([delayed(_CubeMap_joblib_worker)(shm.name, shape, i*step, min((i + 1)*step, n), arr, m, stage) for i in range(n_jobs)])
        out = np.copy(shared)
    finally:
        shm.close()
        shm.unlink()
    return out


def CubeMap_torch(arr, multi_marker=True, verbose=False):
    if not torch_available:
        raise ImportError('torch')
    t = torch.tensor(arr, dtype=torch.int32, device=torch_device)
    a, b, c = t.shape
    cells = torch.zeros((2*a, 2*b, 2*c), dtype=torch.int32, device=torch_device)
    m = (1, 2, 3, 4) if multi_marker else (1, 1, 1, 1)
    where = torch.nonzero(t, as_tuple=False)
    if where.shape[0] > 0:
        cells[where[:, 0]*2, where[:, 1]*2, where[:, 2]*2] = m[0]
    px = (cells.roll(1, 0) == m[0]) & (cells.roll(-1, 0) == m[0])
    py = (cells.roll(1, 1) == m[0]) & (cells.roll(-1, 1) == m[0])
    pz = (cells.roll(1, 2) == m[0]) & (cells.roll(-1, 2) == m[0])
    cells[(cells == 0) & (px | py | pz)] = m[1]
    px = (cells.roll(1, 0) == m[1]) & (cells.roll(-1, 0) == m[1])
    py = (cells.roll(1, 1) == m[1]) & (cells.roll(-1, 1) == m[1])
    pz = (cells.roll(1, 2) == m[1]) & (cells.roll(-1, 2) == m[1])
    cells[(cells == 0) & (px & py | py & pz | pz & px)] = m[2]
    px = (cells.roll(1, 0) == m[2]) & (cells.roll(-1, 0) == m[2])
    py = (cells.roll(1, 1) == m[2]) & (cells.roll(-1, 1) == m[2])
    pz = (cells.roll(1, 2) == m[2]) & (cells.roll(-1, 2) == m[2])
    cells[(cells == 0) & (px & py & pz)] = m[3]
    return cells.cpu().numpy()

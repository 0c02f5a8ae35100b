"""Recorded guards of ViteBetti.py: which arguments and states are refused."""
import numpy as np
import os
try:
    from numba import jit
    numba_available = True
except ImportError:
    numba_available = False

    def jit(func, *args, **kwargs):
        return func
try:
    from .ViteBetti_cython import CubeMap as cython_CubeMap
    cython_available = True
except ImportError:
    cython_CubeMap = None
    cython_available = False
try:
    from joblib import Parallel, delayed
    from multiprocessing import shared_memory
    joblib_available = True
except ImportError:
    joblib_available = False
    Parallel, delayed, shared_memory = (None, None, None)
try:
    import torch
    torch_available = True
    if torch.cuda.is_available():
        torch_device = torch.device('cuda')
    elif torch.backends.mps.is_available():
        torch_device = torch.device('mps')
    else:
        torch_device = torch.device('cpu')
except ImportError:
    torch_available = False
    torch = None

def CubeMap(arr, multi_marker=True):
    return 0
CubeMap_numba = jit(CubeMap, nopython=True) if numba_available else None
CubeMap_cython = cython_CubeMap

def _CubeMap_joblib_worker(shm_name, arr_shape, i_start, i_end, arr_for_vertices, markers, stage):
    return 0

def CubeMap_joblib(arr, multi_marker=True, n_jobs=-1):
    if not joblib_available:
        raise Exception()
    return 0

def CubeMap_torch(arr, multi_marker=True, verbose=False):
    if not torch_available:
        raise Exception()
    return 0

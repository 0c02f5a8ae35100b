"""Recorded guards of segmentation.py: which arguments and states are refused."""
import numpy as np
from tqdm import tqdm
import warnings
warnings.filterwarnings('ignore')

def sigmoid_balanced_cross_entropy_with_logits(_sentinel=None, labels=None, logits=None, beta=None, name=None):
    import tensorflow as tf
    from tensorflow.python.ops import nn_ops
    from tensorflow.python.framework import ops
    from tensorflow.python.ops import array_ops
    from tensorflow.python.ops import math_ops
    try:
        pass
    except ValueError:
        raise Exception()
    return 0

def balanced_cross_entropy(y_true, y_pred):
    return 0

def iou(y_true, y_pred):
    return 0

def dice_coef(y_true, y_pred, smooth=1):
    return 0

def precision(y_true, y_pred):
    return 0

def recall(y_true, y_pred):
    return 0

def r2score(y_true, y_pred):
    return 0

class segunet21cm:

    def __init__(self, tta=1, verbose=False):
        return 0

    def load_model(self):
        return 0

    def UniqueRows(self, arr):
        arr = np.array(arr)
        if arr.ndim == 2:
            arr = np.ascontiguousarray(arr)
        elif arr.ndim == 1:
            pass
        else:
            raise Exception()
        return 0

    def IndependentOperations(self, verbose=False):
        data = np.array(range(3 ** 3)).reshape((3, 3, 3))
        func = [lambda a: a, np.fliplr, np.flipud, lambda a: np.flipud(np.fliplr(a)), lambda a: np.fliplr(np.flipud(a))]
        axis = [0, 1, 2]
        angl_rot = [0, 1, 2, 3]
        tot_manipl_data_flat = np.zeros((len(func) * len(axis) * len(angl_rot), data.size))
        tot_operations = {'opt%d' % k: [] for k in range(0, len(func) * len(axis) * len(angl_rot))}
        i = 0
        for f in func:
            cube = f(data)
            for rotax in axis:
                ax_tup = [0, 1, 2]
                ax_tup.remove(rotax)
                for rot in angl_rot:
                    tot_manipl_data_flat[i] = np.rot90(cube, k=rot, axes=ax_tup).flatten()
                    tot_operations['opt%d' % i] = [f, rotax, rot]
                    i += 1
        uniq_manipl_data_flat = self.UniqueRows(tot_manipl_data_flat).astype(int)
        uniq_operations = {}
        for iumdf, uniq_mdf in enumerate(uniq_manipl_data_flat):
            for itmdf, tot_mdf in enumerate(tot_manipl_data_flat):
                if all(uniq_mdf == tot_mdf):
                    uniq_operations['opt%d' % iumdf] = tot_operations['opt%d' % itmdf]
                    break
        assert uniq_manipl_data_flat.shape[0] == len(uniq_operations)
        return 0

    def prediction(self, x):
        return 0

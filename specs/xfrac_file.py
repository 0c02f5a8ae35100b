"""Reference definitions: C2Ray ionised-fraction files (P10)."""
import os.path
import numpy as np


class XfracFile:
    def __init__(self, filename=None, old_format=False, neutral=False, binary_format=False):
        if filename:
            self.read_from_file(filename, old_format, neutral, binary_format)

    def read_from_file(self, filename, old_format=False, neutral=False, binary_format=False):
        self.filename = filename
        with open(filename, 'rb') as f:
            if binary_format:
                self.mesh_x, self.mesh_y, self.mesh_z = np.fromfile(f, dtype='int32', count=3)
            else:
                head = np.fromfile(f, dtype='int32', count=6)
                self.mesh_x, self.mesh_y, self.mesh_z = head[1:4]
            cells = np.fromfile(f, dtype='float32' if old_format else 'float64')
        x = cells.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
        self.xi = 1 - x if neutral else x
        base = os.path.split(filename)[1]
        try:
            self.z = float(base.split('_')[1][:-4])
        except:
            self.z = -1

    def write_to_file(self, filename, xi, old_format=False, neutral=False, binary_format=False):
        self.xi = xi
        self.filename = filename
        self.mesh_x, self.mesh_y, self.mesh_z = xi.shape
        if binary_format:
            head = np.array([self.mesh_x, self.mesh_y, self.mesh_z]).astype('int32')
        else:
            head = np.array([0, self.mesh_x, self.mesh_y, self.mesh_z, 0, 0]).astype('int32')
        out = 1 - xi if neutral else xi
        with open(filename, 'wb') as f:
            head.tofile(f)
            out.astype('float32' if old_format else 'float64').flatten(order='F').tofile(f)

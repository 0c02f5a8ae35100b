"""Reference definitions: C2Ray ionisation-rate files (P10)."""
import os.path
import numpy as np


class IonRateFile:
    def __init__(self, filename=None, old_format=False, binary_format=False):
        if filename:
            self.read_from_file(filename, old_format, binary_format)

    def read_from_file(self, filename, old_format=False, binary_format=False):
        self.filename = filename
        with open(filename, 'rb') as f:
            if binary_format:
                self.mesh_x, self.mesh_y, self.mesh_z = np.fromfile(f, dtype='int32', count=3)
            else:
                head = np.fromfile(f, dtype='int32', count=6)
                self.mesh_x, self.mesh_y, self.mesh_z = head[1:4]
            if old_format:
                cells = np.fromfile(f, dtype='float32')
            else:
                cells = np.fromfile(f, dtype='float32', count=self.mesh_x*self.mesh_y*self.mesh_z)
        self.irate = cells.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
        base = os.path.split(filename)[1]
        try:
            self.z = float(base.split('_')[1][:-4])
        except:
            self.z = -1

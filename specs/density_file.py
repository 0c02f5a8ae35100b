"""Reference definitions: CubeP3M density and clumping files (P10, P29)."""
import os.path
import numpy as np
from . import const
from . import conv


class DensityFile:
    def __init__(self, filename=None, old_format=False):
        if filename:
            self.read_from_file(filename, old_format)

    def read_from_file(self, filename, old_format=False):
        self.filename = filename
        with open(filename, 'rb') as f:
            if old_format:
                mesh = (203, 203, 203)
            else:
                mesh = np.fromfile(f, dtype='int32', count=3)
            self.mesh_x, self.mesh_y, self.mesh_z = mesh
            cells = np.fromfile(f, dtype='float32')
        self.raw_density = cells.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
        self.cgs_density = self.raw_density*(const.rho_crit_0*const.OmegaB*(self.mesh_x/conv.nbox_fine)**3)
        base = os.path.split(filename)[1]
        try:
            if old_format:
                self.z = float(base[:5])
            else:
                self.z = float(base.split('n_')[0])
        except:
            self.z = -1

    def write_to_file(self, filename, raw_density=None, cgs_density=None, old_format=False):
        assert not (raw_density is None and cgs_density is None)
        if raw_density is not None:
            self.raw_density = raw_density
            self.mesh_x, self.mesh_y, self.mesh_z = raw_density.shape
            self.cgs_density = raw_density*(const.rho_crit_0*(self.mesh_x/conv.nbox_fine)**3*const.OmegaB)
        if cgs_density is not None:
            self.cgs_density = cgs_density
            self.mesh_x, self.mesh_y, self.mesh_z = cgs_density.shape
            self.raw_density = cgs_density/(const.rho_crit_0*(self.mesh_x/conv.nbox_fine)**3*const.OmegaB)
        self.filename = filename
        with open(filename, 'wb') as f:
            if not old_format:
                np.array(self.raw_density.shape).astype('int32').tofile(f)
            self.raw_density.astype('float32').flatten(order='F').tofile(f)


class ClumpingFile:
    def __init__(self, filename=None):
        if filename:
            self.read_from_file(filename)

    def read_from_file(self, filename):
        self.filename = filename
        with open(filename, 'rb') as f:
            self.mesh_x, self.mesh_y, self.mesh_z = np.fromfile(f, dtype='int32', count=3)
            cells = np.fromfile(f, dtype='float32')
        self.raw_clumping = cells.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
        base = os.path.split(filename)[1]
        try:
            self.z = float(base.split('c_')[0])
        except:
            self.z = -1

    def write_to_file(self, filename, raw_clumping=None):
        if raw_clumping is not None:
            self.raw_clumping = raw_clumping
        if getattr(self, 'raw_clumping', None) is None:
            raise ValueError('nothing to write')
        self.filename = filename
        with open(filename, 'wb') as f:
            self.mesh_x, self.mesh_y, self.mesh_z = self.raw_clumping.shape
            np.array([self.mesh_x, self.mesh_y, self.mesh_z]).astype('int32').tofile(f)
            self.raw_clumping.astype('float32').flatten(order='F').tofile(f)

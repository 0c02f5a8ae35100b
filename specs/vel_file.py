"""Reference definitions: CubeP3M velocity files (P10, P29)."""
import os.path
import numpy as np
from . import conv
from . import density_file as df


class VelocityFile:
    def __init__(self, filename=None):
        if filename:
            self.read_from_file(filename)

    def read_from_file(self, filename):
        self.filename = filename
        with open(filename, 'rb') as f:
            self.mesh_x, self.mesh_y, self.mesh_z = np.fromfile(f, dtype='int32', count=3)
            v = np.fromfile(f, dtype='float32').astype('float64')
        self.raw_velocity = v.reshape((3, self.mesh_x, self.mesh_y, self.mesh_z), order='F')
        base = os.path.split(filename)[1]
        try:
            self.z = float(base.split('v_')[0])
        except:
            self.z = -1
        self.kmsrho8 = self.raw_velocity*conv.velconvert(z=self.z)

    def write_to_file(self, filename, raw_velocity=None):
        if raw_velocity is not None:
            self.raw_velocity = raw_velocity
        if getattr(self, 'raw_velocity', None) is None:
            raise ValueError('nothing to write')
        self.filename = filename
        with open(filename, 'wb') as f:
            self.mesh_x, self.mesh_y, self.mesh_z = self.raw_velocity.shape[1:]
            np.array([self.mesh_x, self.mesh_y, self.mesh_z]).astype('int32').tofile(f)
            self.raw_velocity.astype('float32').flatten(order='F').tofile(f)

    def get_kms_from_density(self, density):
        if isinstance(density, str):
            density = df.DensityFile(density).raw_density
        elif isinstance(density, df.DensityFile):
            density = density.raw_density
        return 8*self.kmsrho8/density

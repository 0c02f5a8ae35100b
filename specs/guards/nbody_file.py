"""Recorded guards of nbody_file.py: which arguments and states are refused."""
import numpy as np
from glob import glob
from astropy import units
from scipy.spatial import cKDTree
from scipy.stats import binned_statistic_dd
from . import const
from . import conv
from .helper_functions import print_msg
from .nbody_pkdgrav import *

class NbodyParticle:

    def __init__(self):
        return 0

class NbodyFile:

    def __init__(self, filespath=None, z=None, node=None, alt_format=False, pid_file=True):
        self.filespath = filespath
        if z == None:
            raise Exception()
        if self.filespath:
            self.filespath += '/' if self.filespath[-1] != '/' else ''
        else:
            raise Exception()
        return 0

    def _get_header(self, f):
        self.a, t, tau = np.fromfile(f, count=3, dtype='float32')
        assert round(1.0 / self.a - 1, 2) == round(self.z, 2)
        return 0

    def get_npart(self):
        return 0

    def read_from_file(self, node=None):
        if node != None:
            self.node = node
        else:
            self.node = None
        if self.node == None:
            filesname_xv = ['%snode%d/%.3fxv%d.dat' % (self.filespath, i, self.z, i) for i in range(len(glob(self.filespath + 'node*')))]
            filesname_pid = ['%snode%d/%.3fPID%d.dat' % (self.filespath, i, self.z, i) for i in range(len(glob(self.filespath + 'node*')))]
        else:
            filesname_xv = ['%snode%d/%.3fxv%d.dat' % (self.filespath, self.node, self.z, self.node)]
            filesname_pid = ['%snode%d/%.3fPID%d.dat' % (self.filespath, self.node, self.z, self.node)]
        npart_xv = 0
        npart_pid = 0
        for fn_xv, fn_pid in zip(filesname_xv, filesname_pid):
            with open(fn_xv, 'rb') as fxv:
                np_local_xv = self._get_header(fxv)
                npart_xv += np_local_xv
            if self.pid_file:
                with open(fn_pid, 'rb') as fpid:
                    np_local_pid = self._get_header(fpid)
                    npart_pid += np_local_pid
            if self.pid_file:
                assert np_local_pid == np_local_xv
            for i in range(0, np_local_xv):
                pass
        if self.pid_file:
            assert npart_pid == npart_xv
        return 0

def read_pkdgrav_fof_halo_catalogue(filename, box_dim, nGrid=None, hlittle=0.67):
    return 0

def read_pkdgrav_density_grid(filename, box_dim, nGrid=None):
    return 0

class Halo2Grid:

    def __init__(self, box_len, n_grid, method='nearest'):
        if method != 'nearest':
            raise Exception()
        return 0

    def set_halo_pos(self, pos, unit=None):
        if unit is None or unit.lower() == 'grid':
            pass
        elif unit.lower() == 'cm':
            pass
        elif unit.lower() == 'mpc':
            pass
        else:
            raise Exception()
        return 0

    def set_halo_mass(self, mass, unit=None):
        if unit is None or unit.lower() == 'msun':
            pass
        elif unit.lower() == 'kg':
            pass
        elif unit.lower() in ['gram', 'g']:
            pass
        else:
            raise Exception()
        return 0

    def pos_cm_to_grid(self, pos_cm):
        return 0

    def pos_mpc_to_grid(self, pos_mpc):
        return 0

    def construct_tree(self, **kwargs):
        pos = kwargs.get('pos', self.pos_grid)
        if pos is None:
            raise Exception()
        return 0

    def value_on_grid(self, positions, values, **kwargs):
        return 0

    def halo_mass_on_grid(self, **kwargs):
        pos = kwargs.get('pos', self.pos_grid)
        if pos is None:
            raise Exception()
        mass = kwargs.get('mass', self.mass_Msun)
        if mass is None:
            raise Exception()
        return 0

    def halo_value_on_grid(self, value, **kwargs):
        pos = kwargs.get('pos', self.pos_grid)
        if pos is None:
            raise Exception()
        return 0

def halo_list_to_grid(mass, pos_xyz, box_dim, n_grid):
    return 0

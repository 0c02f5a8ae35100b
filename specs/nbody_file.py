"""Reference definitions: N-body files and gridding of halo catalogues (P28, P29, P12)."""
import numpy as np
from glob import glob
from astropy import units
from scipy.spatial import cKDTree
from scipy.stats import binned_statistic_dd
from .nbody_pkdgrav import *


class NbodyParticle:
    def __init__(self):
        self.pos = [0.0, 0.0, 0.0]
        self.vel = [0.0, 0.0, 0.0]
        self.pid = 0


class NbodyFile:
    def __init__(self, filespath=None, z=None, node=None, alt_format=False, pid_file=True):
        if z == None:
            raise NameError('z')
        if not filespath:
            raise NameError('path')
        self.nbody = []
        self.z = z
        self.node = node
        self.alt_format = alt_format
        self.pid_file = pid_file
        self.filespath = filespath + ('/' if filespath[-1] != '/' else '')
        self.npart = self.get_npart()
        if node != None:
            self.read_from_file(node=node)

    def get_npart(self):
        total = 0
        for i in range(len(glob(self.filespath + 'node*'))):
            with open('%snode%d/%.3fxv%d.dat' % (self.filespath, i, self.z, i), 'rb') as f:
                n = self._get_header(f)
            total += n
        return total

    def read_from_file(self, node=None):
        self.node = node
        nodes = range(len(glob(self.filespath + 'node*'))) if node == None else [node]
        xv = ['%snode%d/%.3fxv%d.dat' % (self.filespath, i, self.z, i) for i in nodes]
        pids = ['%snode%d/%.3fPID%d.dat' % (self.filespath, i, self.z, i) for i in nodes]
        total = 0
        total_pid = 0
        for a, b in zip(xv, pids):
            with open(a, 'rb') as f:
                n = self._get_header(f)
                total += n
                both = np.fromfile(f, count=6*n, dtype='float32').reshape((n, 6), order='F')
            if self.pid_file:
                with open(b, 'rb') as f:
                    m = self._get_header(f)
                    total_pid += m
                    ids = np.fromfile(f, count=m, dtype='int64')
                assert m == n
            for i in range(n):
                p = NbodyParticle()
                p.pos = both[i, :3]
                p.vel = both[i, 3:]
                if self.pid_file:
                    p.pid = ids[i]
                self.nbody.append(p)
        if self.pid_file:
            assert total == total_pid
        self.npart = total

    def _get_header(self, f):
        n = np.fromfile(f, count=1, dtype='int32')[0]
        self.a, t, tau = np.fromfile(f, count=3, dtype='float32')
        assert round(1./self.a - 1, 2) == round(self.z, 2)
        np.fromfile(f, count=1, dtype='int32')
        np.fromfile(f, count=3, dtype='float32')
        np.fromfile(f, count=3, dtype='int32')
        np.fromfile(f, count=1, dtype='float32')
        return n


def read_pkdgrav_fof_halo_catalogue(filename, box_dim, nGrid=None, hlittle=0.67):
    rd = Pkdgrav3data(box_dim*hlittle, nGrid, Omega_m=0.31, rho_c=2.77536627e11, verbose=True)
    rd.read_fof_data(filename)
    return rd.array_fof_data()


def read_pkdgrav_density_grid(filename, box_dim, nGrid=None):
    rd = Pkdgrav3data(box_dim, nGrid, Omega_m=0.31, rho_c=2.77536627e11, verbose=True)
    return rd.load_density_field(filename)


class Halo2Grid:
    def __init__(self, box_len, n_grid, method='nearest'):
        if method != 'nearest':
            raise ValueError('method')
        self.box_len = box_len
        self.n_grid = n_grid
        self.mpc_to_cm = 3.085677581491367e+24
        self.Msun_to_g = 1.988409870698051e+33
        self.pos_grid = None
        self.mass_Msun = None

    def set_halo_pos(self, pos, unit=None):
        if unit is None or unit.lower() == 'grid':
            self.pos_grid = pos
        elif unit.lower() == 'cm':
            self.pos_grid = pos/self.mpc_to_cm*self.n_grid/self.box_len
        elif unit.lower() == 'mpc':
            self.pos_grid = pos*self.n_grid/self.box_len
        else:
            raise ValueError('unit')

    def set_halo_mass(self, mass, unit=None):
        if unit is None or unit.lower() == 'msun':
            self.mass_Msun = mass
        elif unit.lower() == 'kg':
            self.mass_Msun = mass*1000/self.Msun_to_g
        elif unit.lower() in ['gram', 'g']:
            self.mass_Msun = mass/self.Msun_to_g
        else:
            raise ValueError('unit')

    def pos_cm_to_grid(self, pos_cm):
        g = pos_cm/self.mpc_to_cm*self.n_grid/self.box_len
        self.pos_grid = g
        return g

    def pos_mpc_to_grid(self, pos_mpc):
        g = pos_mpc*self.n_grid/self.box_len
        self.pos_grid = g
        return g

    def construct_tree(self, **kwargs):
        pos = kwargs.get('pos', self.pos_grid)
        if pos is None:
            raise ValueError('pos')
        self.kdtree = cKDTree(pos)

    def value_on_grid(self, positions, values, **kwargs):
        statistic = kwargs.get('statistic', 'sum')
        bins = kwargs.get('bins', self.n_grid)
        b, e, n = binned_statistic_dd(positions, values, statistic=statistic, bins=bins, range=[(0, self.n_grid)]*np.shape(positions)[1])
        return b, e, n

    def halo_mass_on_grid(self, **kwargs):
        pos = kwargs.get('pos', self.pos_grid)
        if pos is None:
            raise ValueError('pos')
        mass = kwargs.get('mass', self.mass_Msun)
        if mass is None:
            raise ValueError('mass')
        m = kwargs.get('binned_mass')
        if m is None:
            m = self.value_on_grid(pos, mass, statistic='sum', bins=self.n_grid)[0]
        return np.argwhere(m > 0), m[m > 0]

    def halo_value_on_grid(self, value, **kwargs):
        pos = kwargs.get('pos', self.pos_grid)
        if pos is None:
            raise ValueError('pos')
        m = kwargs.get('binned_value')
        if m is None:
            m = self.value_on_grid(pos, value, statistic='sum', bins=self.n_grid)[0]
        return np.argwhere(m != 0), m[m != 0]


def halo_list_to_grid(mass, pos_xyz, box_dim, n_grid):
    m = mass.to('Msun').value if isinstance(mass, units.Quantity) else mass
    x = pos_xyz.to('Mpc').value if isinstance(pos_xyz, units.Quantity) else pos_xyz
    L = box_dim.to('Mpc').value if isinstance(box_dim, units.Quantity) else box_dim
    b, e, n = binned_statistic_dd(x*n_grid/L, m, statistic='sum', bins=n_grid, range=[(0, n_grid)]*np.shape(x*n_grid/L)[1])
    return b, e, n

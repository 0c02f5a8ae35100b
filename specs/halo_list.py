"""Reference definitions for halo_list.py."""
import os.path
import numpy as np
from glob import glob
from . import const, conv


class Halo:
    def __init__(self):
        self.pos = [0.0, 0.0, 0.0]
        self.pos_cm = [0.0, 0.0, 0.0]
        self.vel = [0.0, 0.0, 0.0]
        self.l = [0.0, 0.0, 0.0]
        self.vel_disp = 0.0
        self.r = 0.0
        self.m = 0.0
        self.mp = 0


class HaloList:
    def __init__(self, filename=None, min_select_mass=0.0, max_select_mass=None, max_select_number=-1, startline=0):
        self.halos = []
        if filename:
            self.read_from_file(filename, min_select_mass, max_select_mass, max_select_number, startline)

    def read_from_file(self, filename, min_select_mass=0.0, max_select_mass=None, max_select_number=-1, startline=0):
        self.halos = []
        self.filename = filename
        self.z = float(os.path.split(filename)[1].split('halo')[0])
        unit = conv.M_grid*const.solar_masses_per_gram
        n = 1
        with open(filename) as lines:
            for line in lines:
                if n < startline:
                    n += 1
                    continue
                if max_select_number >= 0 and len(self.halos) >= max_select_number:
                    return False
                n += 1
                v = line.split()
                mass = float(v[-3])
                if mass > min_select_mass/unit and (max_select_mass is None or mass < max_select_mass/unit):
                    h = Halo()
                    h.pos = np.array([float(i) for i in v[:3]])
                    h.pos_cm = np.array([float(i) for i in v[3:6]])
                    h.vel = np.array([float(i) for i in v[6:9]])
                    h.l = np.array([float(i) for i in v[9:12]])
                    h.vel_disp = np.array([float(i) for i in v[12:15]])
                    h.m = float(v[16])
                    h.mp = float(v[17])
                    h.solar_masses = mass*unit
                    self.halos.append(h)
        return True


def _columns(halos, var, allowed):
    if var not in allowed:
        raise ValueError
    return np.array([getattr(h, var) for h in halos])


def _inside(pos, box):
    out = pos.copy()
    for i, v in enumerate(pos):
        if v < 0:
            out[i] = box + v
        elif v > box:
            out[i] = v - box
    return out


class HaloRockstar:
    def __init__(self, filename=None, mass_def='vir', max_select_number=-1, startline=0):
        self.halos = []
        self.mass_def = mass_def
        if filename:
            self.read_from_file(filename, max_select_number, startline)

    def read_from_file(self, filename, max_select_number=-1, startline=0):
        self.halos = []
        self.filename = filename
        with open(filename) as lines:
            for n, line in enumerate(lines):
                if n == 0:
                    ext = self.filename[self.filename.rfind('.') + 1:]
                    names = line.split()
                    if ext == 'list':
                        ipos, ivel, il = names.index('X'), names.index('VX'), names.index('JX')
                        idisp, ir, im = names.index('Vrms'), names.index('R' + self.mass_def), names.index('M' + self.mass_def)
                        ncosm, npart, nvals = 2, 5, 15
                    elif ext == 'ascii':
                        ipos, ivel, il = names.index('x'), names.index('vx'), names.index('Jx')
                        idisp, ir, im = names.index('vrms'), names.index('r' + self.mass_def), names.index('m' + self.mass_def)
                        ncosm, npart, nvals = 3, 6, 19
                    else:
                        raise ValueError('format')
                elif n == 1:
                    self.z = 1/float(line.split()[-1]) - 1
                elif n == ncosm:
                    c = line.split()
                    self.Om, self.Ol, self.h = float(c[2][:-1]), float(c[5][:-1]), float(c[-1])
                elif n == npart:
                    self.part_mass = float(line.split()[2])
                elif n > nvals and n + 1 >= startline:
                    v = line.split()
                    if max_select_number < 0 or len(self.halos) < max_select_number:
                        h = Halo()
                        h.pos = np.array(v[ipos:ipos + 3]).astype(float)
                        h.vel = np.array(v[ivel:ivel + 3]).astype(float)
                        h.pos_cm = h.pos
                        h.l = np.array(v[il:il + 3]).astype(float)
                        h.vel_disp = float(v[idisp])
                        h.r = float(v[ir])
                        h.m = float(v[im])
                        h.mp = int(round(h.m/self.part_mass, 0))
                        self.halos.append(h)
                    else:
                        return False
        return True

    def get(self, var=None):
        return _columns(self.halos, var, ('m', 'r', 'pos', 'vel', 'vel_disp', 'l', 'pos_cm'))


class HaloCubeP3MFull:
    def __init__(self, filename=None, box_len=None, output_len=None, min_select_mass=0.0, max_select_mass=None, max_select_number=-1, startline=0):
        self.halos = []
        if box_len is None:
            raise ValueError('box_len')
        conv.set_sim_constants(boxsize_cMpc=box_len)
        self.nbox_fine = conv.nbox_fine
        self.box_len = float(box_len) if output_len is None else float(output_len)
        if filename:
            self.z = float(filename[filename.rfind('/') + 1:filename.rfind('halo')])
            self.read_from_file(filename, min_select_mass, max_select_mass, max_select_number, startline)

    def read_from_file(self, filename, min_select_mass=0.0, max_select_mass=None, max_select_number=-1, startline=0):
        self.halos = []
        self.filename = filename
        self.z = float(os.path.split(filename)[1].split('halo')[0])
        unit = conv.M_grid*const.solar_masses_per_gram
        n = 1
        with open(filename) as lines:
            for line in lines:
                if n < startline:
                    n += 1
                    continue
                if max_select_number >= 0 and len(self.halos) >= max_select_number:
                    return False
                n += 1
                v = line.split()
                if len(v) == 1:
                    continue
                mass = float(v[-3])
                if mass > min_select_mass/unit and (max_select_mass is None or mass < max_select_mass/unit):
                    h = Halo()
                    h.pos = self._reposition(np.array([float(i) for i in v[:3]])*self.box_len/self.nbox_fine)
                    h.pos_cm = self._reposition(np.array([float(i) for i in v[3:6]])*self.box_len/self.nbox_fine)
                    h.vel = conv.gridvel_to_kms(np.array([float(i) for i in v[6:9]]), self.z)
                    h.l = conv.gridpos_to_mpc(conv.gridvel_to_kms(np.array([float(i) for i in v[9:12]]), self.z))*unit*const.h**2
                    h.vel_disp = conv.gridvel_to_kms(np.array([float(i) for i in v[12:15]]), self.z)
                    h.m = 10**conv.gridmass_to_msol(float(v[16]))*const.h
                    h.mp = float(v[17])
                    h.solar_masses = mass*unit
                    self.halos.append(h)
        return True

    def get(self, var=None):
        return _columns(self.halos, var, ('m', 'pos', 'vel', 'vel_disp', 'l', 'pos_cm'))

    def _reposition(self, pos):
        for i, v in enumerate(pos):
            if v < 0:
                pos[i] = self.box_len + v
            elif v > self.box_len:
                pos[i] = v - self.box_len
        return pos


class HaloCubeP3M:
    def __init__(self, filespath=None, z=None, node=None, mass_def='vir', pid_flag=True, cosm_unit=True):
        self.halos = []
        if not z:
            raise NameError('z')
        if not filespath:
            raise NameError('path')
        if filespath[-1] != '/':
            filespath = filespath + '/'
        self.read_from_file(filespath, z, node, mass_def, pid_flag, cosm_unit)

    def _get_header(self, file):
        n = np.fromfile(file, count=1, dtype='int32')[0]
        vir, odc = np.fromfile(file, count=2, dtype='float32')
        return n, vir, odc

    def _reposition(self, pos):
        return _inside(pos, conv.boxsize)

    def read_from_file(self, filespath, z, node, mass_def, pid_flag, cosm_unit):
        if mass_def not in ('vir', 'odc'):
            raise ValueError('mass definition')
        self.filespath = filespath
        self.z = z
        if node is None:
            names = ['%snode%d/%.3fhalo%d.dat' % (filespath, i, self.z, i) for i in range(len(glob(filespath + 'node*')))]
        else:
            names = ['%snode%d/%.3fhalo%d.dat' % (filespath, node, self.z, node)]
        self.nhalo = 0
        for name in names:
            with open(name, 'rb') as f:
                count, vir, odc = self._get_header(f)
                self.nhalo += count
                for i in range(count):
                    h = Halo()
                    h.pos = np.fromfile(f, count=3, dtype='float32')
                    mvir, modc, rvir, rodc = np.fromfile(f, count=4, dtype='float32')
                    h.m = mvir if mass_def == 'vir' else modc
                    h.r = rvir if mass_def == 'vir' else rodc
                    h.mp = 0
                    h.pos_cm = np.fromfile(f, count=3, dtype='float32')
                    h.vel = np.fromfile(f, count=3, dtype='float32')
                    h.l = np.fromfile(f, count=3, dtype='float32')
                    h.vel_disp = np.linalg.norm(np.fromfile(f, count=3, dtype='float32'))
                    np.fromfile(f, count=3, dtype='float32')
                    if pid_flag:
                        np.fromfile(f, count=50, dtype='int64')
                        np.fromfile(f, count=50*6, dtype='float32').reshape((50, 6), order='C')
                    else:
                        np.fromfile(f, count=6, dtype='float32')
                    if cosm_unit:
                        h.pos = self._reposition(conv.gridpos_to_mpc(h.pos)*const.h)
                        h.m = 10**conv.gridmass_to_msol(h.m)*const.h
                        h.r = conv.gridpos_to_mpc(h.r)*const.h
                        h.pos_cm = self._reposition(conv.gridpos_to_mpc(h.pos_cm)*const.h)
                        h.vel = conv.gridvel_to_kms(h.vel, self.z)
                        h.l = conv.gridpos_to_mpc(conv.gridvel_to_kms(h.l, self.z))*conv.M_grid*const.solar_masses_per_gram*const.h**2
                        h.vel_disp = conv.gridvel_to_kms(h.vel_disp, self.z)
                    self.halos.append(h)
        return True

    def get(self, var=None):
        return _columns(self.halos, var, ('m', 'r', 'pos', 'vel', 'vel_disp', 'l', 'pos_cm'))

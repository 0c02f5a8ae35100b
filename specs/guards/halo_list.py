"""Recorded guards of halo_list.py: which arguments and states are refused."""
import numpy as np
from glob import glob
from time import time
from tqdm import tqdm
from .helper_functions import print_msg
from . import const
from . import conv

class Halo:

    def __init__(self):
        return 0

class HaloRockstar:

    def __init__(self, filename=None, mass_def='vir', max_select_number=-1, startline=0):
        return 0

    def read_from_file(self, filename, max_select_number=-1, startline=0):
        self.halos = []
        self.filename = filename
        from astropy import units as U
        with open(filename) as lines:
            for linenumber, line in tqdm(enumerate(lines)):
                if linenumber == 0:
                    header = line.split()
                    if self.filename[self.filename.rfind('.') + 1:] == 'list':
                        idx_pos = header.index('X')
                        idx_vel = header.index('VX')
                        idx_l = header.index('JX')
                        idx_vrms = header.index('Vrms')
                        idx_r = header.index('R' + self.mass_def)
                        idx_m = header.index('M' + self.mass_def)
                        lnr_cosm = 2
                        lnr_part = 5
                        lnr_vals = 15
                    elif self.filename[self.filename.rfind('.') + 1:] == 'ascii':
                        idx_pos = header.index('x')
                        idx_vel = header.index('vx')
                        idx_l = header.index('Jx')
                        idx_vrms = header.index('vrms')
                        idx_r = header.index('r' + self.mass_def)
                        idx_m = header.index('m' + self.mass_def)
                        lnr_cosm = 3
                        lnr_part = 6
                        lnr_vals = 19
                    else:
                        raise Exception()
                elif linenumber == 1:
                    pass
                elif linenumber == lnr_cosm:
                    pass
                elif linenumber == lnr_part:
                    self.part_mass = float(line.split()[2])
                elif linenumber > lnr_vals and linenumber + 1 >= startline:
                    vals = line.split()
                    if max_select_number < 0 or len(self.halos) < max_select_number:
                        halo = Halo()
                        halo.pos = np.array(vals[idx_pos:idx_pos + 3]).astype(float)
                        halo.vel = np.array(vals[idx_vel:idx_vel + 3]).astype(float)
                        halo.pos_cm = halo.pos
                        halo.l = np.array(vals[idx_l:idx_l + 3]).astype(float)
                        halo.vel_disp = float(vals[idx_vrms])
                        halo.r = float(vals[idx_r])
                        halo.m = float(vals[idx_m])
                        halo.mp = int(round(halo.m / self.part_mass, 0))
                        self.halos.append(halo)
                    else:
                        return 0
        return 0

    def get(self, var=None):
        if var == 'm':
            pass
        elif var == 'r':
            pass
        elif var == 'pos':
            pass
        elif var == 'vel':
            pass
        elif var == 'vel_disp':
            pass
        elif var == 'l':
            pass
        elif var == 'pos_cm':
            pass
        else:
            raise Exception()
        return 0

class HaloCubeP3MFull:

    def __init__(self, filename=None, box_len=None, output_len=None, min_select_mass=0.0, max_select_mass=None, max_select_number=-1, startline=0):
        if box_len == None:
            raise Exception()
        return 0

    def read_from_file(self, filename, min_select_mass=0.0, max_select_mass=None, max_select_number=-1, startline=0):
        return 0

    def get(self, var=None):
        if var == 'm':
            pass
        elif var == 'pos':
            pass
        elif var == 'vel':
            pass
        elif var == 'vel_disp':
            pass
        elif var == 'l':
            pass
        elif var == 'pos_cm':
            pass
        else:
            raise Exception()
        return 0

    def _reposition(self, pos):
        return 0

class HaloCubeP3M:

    def __init__(self, filespath=None, z=None, node=None, mass_def='vir', pid_flag=True, cosm_unit=True):
        if not z:
            raise Exception()
        if filespath:
            filespath += '/' if filespath[-1] != '/' else ''
        else:
            raise Exception()
        return 0

    def _get_header(self, file):
        return 0

    def _reposition(self, pos):
        return 0

    def read_from_file(self, filespath, z, node, mass_def, pid_flag, cosm_unit):
        if mass_def not in ['vir', 'odc']:
            raise Exception()
        return 0

    def get(self, var=None):
        if var == 'm':
            pass
        elif var == 'r':
            pass
        elif var == 'pos':
            pass
        elif var == 'vel':
            pass
        elif var == 'vel_disp':
            pass
        elif var == 'l':
            pass
        elif var == 'pos_cm':
            pass
        else:
            raise Exception()
        return 0

class HaloList:

    def __init__(self, filename=None, min_select_mass=0.0, max_select_mass=None, max_select_number=-1, startline=0):
        return 0

    def read_from_file(self, filename, min_select_mass=0.0, max_select_mass=None, max_select_number=-1, startline=0):
        return 0

"""Recorded guards of nbody_pkdgrav.py: which arguments and states are refused."""
import numpy as np
from scipy.interpolate import splev, splrep
import pandas as pd
from tqdm import tqdm
from .helper_functions import save_data

class ReaderPkdgrav3:

    def __init__(self, box_len, nGrid=None, Omega_m=0.31, rho_c=277536627000.0, verbose=True):
        return 0

    def dLightSpeedSim(self, dMpcUnit):
        return 0

    def read_particles(self, filename):
        return 0

class HaloCataloguePkdgrav3(ReaderPkdgrav3):

    def __init__(self, box_len, nGrid=None, Omega_m=0.31, rho_c=277536627000.0, verbose=True):
        return 0

    def read_fof_data(self, filename, z=None, dtype=None):
        return 0

    def _read_fof_data(self, filename, z=None, dtype=None):
        return 0

    def array_fof_data(self, dtype=float):
        data = self.fof_data
        if data is not None:
            return 0
        else:
            raise Exception()
        return 0

    def save_fof_data(self, savefile):
        if '.txt' in savefile[-5:]:
            pass
        elif '.npy' in savefile[-5:]:
            pass
        else:
            raise Exception()
        return 0

    def get_hmf_data(self, hl_mass, bins=25):
        return 0

class PowerSpectrumPkdgrav3(ReaderPkdgrav3):

    def __init__(self, box_len, nGrid=None, Omega_m=0.31, rho_c=277536627000.0, verbose=True):
        return 0

    def read_pk_data(self, filename, ks=None, window_size=None):
        return 0

class Pkdgrav3data(HaloCataloguePkdgrav3, PowerSpectrumPkdgrav3):

    def __init__(self, box_len, nGrid=None, Omega_m=0.31, rho_c=277536627000.0, verbose=True):
        return 0

    def load_density_field(self, file):
        return 0

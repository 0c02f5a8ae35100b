"""Recorded guards of density_file.py: which arguments and states are refused."""
import numpy as np
from . import const
from . import conv
from .helper_functions import print_msg

class DensityFile:

    def __init__(self, filename=None, old_format=False):
        return 0

    def read_from_file(self, filename, old_format=False):
        return 0

    def write_to_file(self, filename, raw_density=None, cgs_density=None, old_format=False):
        assert raw_density is not None or cgs_density is not None
        return 0

class ClumpingFile:

    def __init__(self, filename=None):
        return 0

    def read_from_file(self, filename):
        return 0

    def write_to_file(self, filename, raw_clumping=None):
        if getattr(self, 'raw_clumping', None) is None:
            raise Exception()
        return 0

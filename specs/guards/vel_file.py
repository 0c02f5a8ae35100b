"""Recorded guards of vel_file.py: which arguments and states are refused."""
from . import const, conv
from .helper_functions import print_msg
from . import density_file as df
import numpy as np

class VelocityFile:

    def __init__(self, filename=None):
        return 0

    def read_from_file(self, filename):
        return 0

    def write_to_file(self, filename, raw_velocity=None):
        if getattr(self, 'raw_velocity', None) is None:
            raise Exception()
        return 0

    def get_kms_from_density(self, density):
        return 0

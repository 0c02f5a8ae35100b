"""Recorded guards of source_file.py: which arguments and states are refused."""
from . import const
from . import conv
import numpy as np
from .helper_functions import print_msg

class SourceFile:

    def __init__(self, filename, mass='hm', old_format=False):
        return 0

    def read_from_file(self, filename, old_format=False):
        if self.mass == 'hm':
            pass
        elif self.mass == 'lm':
            pass
        elif self.mass == 'both':
            pass
        else:
            raise Exception()
        return 0

    def grid_sources(self, mesh):
        return 0

    def write_to_file(self, filename, sources_list=None, old_format=False):
        if sources_list is not None:
            self.sources_list = sources_list
        if getattr(self, 'sources_list', None) is None or self.sources_list.shape[0] == 0:
            raise Exception()
        if self.sources_list.shape[1] not in [4, 5]:
            raise Exception()
        return 0

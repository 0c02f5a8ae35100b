"""Reference definitions: C2Ray source lists (P10, P29)."""
import numpy as np
from . import const
from . import conv


class SourceFile:
    def __init__(self, filename, mass='hm', old_format=False):
        self.mass = mass
        if filename:
            self.read_from_file(filename, old_format)

    def read_from_file(self, filename, old_format=False):
        self.filename = filename
        with open(filename, 'rb') as f:
            rows = f.readlines()
            n = int(rows[0].split()[0])
        if self.mass == 'hm':
            cols = [3]
        elif self.mass == 'lm':
            cols = [4]
        elif self.mass == 'both':
            cols = [3, 4]
        else:
            raise ValueError('mass')
        self.sources_list = np.zeros((n, 3 + len(cols)))
        for i in range(n):
            words = rows[2*i + 1].split()
            self.sources_list[i, :3] = np.array(words[:3], dtype=int) - 1
            self.sources_list[i, 3:] = np.power(10, conv.gridmass_to_msol(np.array([float(words[c]) for c in cols])))
        try:
            self.z = float(filename[filename.rfind('/') + 1:filename.rfind('-coarsest')])
        except:
            self.z = -1

    def grid_sources(self, mesh):
        self.sources_coeval = np.zeros((mesh, mesh, mesh))
        for n in range(self.sources_list.shape[0]):
            i, j, k = self.sources_list[n, :3].astype(int)
            self.sources_coeval[i, j, k] = self.sources_list[n, 3]

    def write_to_file(self, filename, sources_list=None, old_format=False):
        if sources_list is not None:
            self.sources_list = sources_list
        if getattr(self, 'sources_list', None) is None or self.sources_list.shape[0] == 0:
            raise ValueError('empty')
        if self.sources_list.shape[1] not in [4, 5]:
            raise ValueError('columns')
        n = self.sources_list.shape[0]
        m = np.zeros((n, 2))
        if self.sources_list.shape[1] == 5:
            m[:, :] = self.sources_list[:, 3:]
        elif self.mass == 'lm':
            m[:, 1] = self.sources_list[:, 3]
        else:
            m[:, 0] = self.sources_list[:, 3]
        m = m/(conv.M_grid*const.solar_masses_per_gram)
        with open(filename, 'w') as f:
            f.write(f"{n} 0.0\n")
            for i in range(n):
                x, y, z = self.sources_list[i, :3].astype(int) + 1
                f.write(f"{x} {y} {z} {float(m[i,0])!r} {float(m[i,1])!r}\n")
                f.write("\n")

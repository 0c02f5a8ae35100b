"""Reference definitions: pkdgrav3 outputs (P28, P29, P08)."""
import numpy as np
import pandas as pd
from scipy.interpolate import splev, splrep


class ReaderPkdgrav3:
    def __init__(self, box_len, nGrid=None, Omega_m=0.31, rho_c=2.77536627e11, verbose=True):
        self.box_len = box_len
        self.nGrid = nGrid
        self.Omega_m = Omega_m
        self.rho_c = rho_c
        self.verbose = verbose
        self.fof_data = None
        self.pk_data = None

    def dLightSpeedSim(self, dMpcUnit):
        return 8677.2079486362706/dMpcUnit

    def read_particles(self, filename):
        point = [('mass', '>f4')] + [(c, '>f4') for c in ('x', 'y', 'z', 'vx', 'vy', 'vz')]
        head = np.dtype([('time', '>f8'), ('N', '>i4'), ('Dims', '>i4'), ('Ngas', '>i4'), ('Ndark', '>i4'), ('Nstar', '>i4'), ('pad', '>i4')])
        gas_t = np.dtype(point + [(c, '>f4') for c in ('rho', 'temp', 'hsmooth', 'metals', 'phi')])
        dark_t = np.dtype(point + [(c, '>f4') for c in ('eps', 'phi')])
        star_t = np.dtype(point + [(c, '>f4') for c in ('metals', 'tform', 'eps', 'phi')])
        with open(filename, 'rb') as f:
            h = dict(zip(head.names, np.fromfile(f, dtype=head, count=1)[0]))
            gas = np.fromfile(f, dtype=gas_t, count=h['Ngas'])
            dark = np.fromfile(f, dtype=dark_t, count=h['Ndark'])
            star = np.fromfile(f, dtype=star_t, count=h['Nstar'])
        return {'header': h, 'gas': pd.DataFrame(gas, columns=gas.dtype.names), 'dark': pd.DataFrame(dark, columns=dark.dtype.names),
                'star': pd.DataFrame(star, columns=star.dtype.names)}


class HaloCataloguePkdgrav3(ReaderPkdgrav3):
    def __init__(self, box_len, nGrid=None, Omega_m=0.31, rho_c=2.77536627e11, verbose=True):
        super().__init__(box_len, nGrid, Omega_m, rho_c, verbose)

    def read_fof_data(self, filename, z=None, dtype=None):
        if isinstance(filename, list):
            for ii, ff in enumerate(filename):
                one = self._read_fof_data(ff, z=z, dtype=dtype)
                data = one if ii == 0 else np.concatenate((data, one), axis=0)
        else:
            data = self._read_fof_data(filename, z=z, dtype=dtype)
        self.fof_data_dtype = dtype
        self.fof_data = data
        return data

    def _read_fof_data(self, filename, z=None, dtype=None):
        self.dMassFac = self.rho_c*self.box_len**3
        v = 299792.458/self.dLightSpeedSim(self.box_len)
        if z is not None:
            if isinstance(z, str):
                z = float(z)
            v *= 1 + z
        self.dVelFac = v
        if dtype is None:
            dtype = np.dtype([('rPot', '<f4', (3,)), ('minPot', '<f4'), ('rcen', '<f4', (3,)), ('rcom', '<f4', (3,)), ('vcom', '<f4', (3,)),
                              ('angular', '<f4', (3,)), ('inertia', '<f4', (6,)), ('sigma', '<f4'), ('rMax', '<f4'), ('fMass', '<f4'),
                              ('fEnvironDensity0', '<f4'), ('fEnvironDensity1', '<f4'), ('rHalf', '<f4')])
        return np.fromfile(filename, dtype=dtype)

    def array_fof_data(self, dtype=float):
        if self.fof_data is None:
            raise ValueError('unread')
        out = []
        for g in self.fof_data:
            pos = [(g['rPot'][j] + g['rcom'][j])*self.box_len for j in range(3)]
            m = self.dMassFac*g['fMass']
            if dtype in ['str', 'string', str]:
                out.append(f"{m} {pos[0]:20.14f} {pos[1]:20.14f} {pos[2]:20.14f}")
            else:
                out.append(np.array([m, pos[0], pos[1], pos[2]]).astype(dtype))
        return np.array(out)

    def save_fof_data(self, savefile):
        if '.txt' in savefile[-5:]:
            np.savetxt(savefile, self.array_fof_data())
        elif '.npy' in savefile[-5:]:
            np.save(savefile, self.array_fof_data())
        else:
            raise ValueError('extension')

    def get_hmf_data(self, hl_mass, bins=25):
        n, e = np.histogram(np.log(hl_mass), bins=bins)
        return np.exp(e[1:]/2 + e[:-1]/2), n/self.box_len**3


class PowerSpectrumPkdgrav3(ReaderPkdgrav3):
    def __init__(self, box_len, nGrid=None, Omega_m=0.31, rho_c=2.77536627e11, verbose=True):
        super().__init__(box_len, nGrid, Omega_m, rho_c, verbose)

    def read_pk_data(self, filename, ks=None, window_size=None):
        table = np.loadtxt(filename)
        k, p = table[:, 0], table[:, 1]
        d = {'k': k, 'P': p, 'header': []}
        with open(filename, 'r') as f:
            head = [l.strip() for l in f.readlines() if l.startswith('#')]
        for l in head:
            if 'z=' in l:
                d['z'] = float(l.split('z=')[-1])
            d['header'].append(l)
        self.pk_data = d
        if ks is not None:
            p = 10**splev(np.log10(ks), splrep(np.log10(k), np.log10(p)))
            k = ks
        if window_size is not None:
            t = pd.DataFrame({'x': np.log10(k), 'y': np.log10(p)})
            p = 10**t['y'].rolling(window=window_size, min_periods=1).mean()
        return k, p


class Pkdgrav3data(HaloCataloguePkdgrav3, PowerSpectrumPkdgrav3):
    def __init__(self, box_len, nGrid=None, Omega_m=0.31, rho_c=2.77536627e11, verbose=True):
        super().__init__(box_len, nGrid, Omega_m, rho_c, verbose)

    def load_density_field(self, file):
        dens = np.fromfile(file, dtype=np.float32)
        n = self.nGrid
        if n is None:
            n = round(dens.shape[0]**(1/3))
        mass = (dens.reshape(n, n, n).T*self.rho_c*self.box_len**3).astype(np.float64)
        rho = mass/(self.box_len/n)**3
        return rho/np.mean(rho, dtype=np.float64) - 1

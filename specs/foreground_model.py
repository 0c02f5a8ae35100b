"""Reference definitions for foreground_model.py."""
import numpy as np
from scipy.integrate import quad, trapezoid
from .radio_telescope_sensitivity import jansky_2_kelvin
from . import cosmo as cm
from . import const, conv


def galactic_synch_fg(z, ncells, boxsize, rseed=False):
    z = np.atleast_1d(z)
    out = np.zeros((ncells, ncells, z.size))
    if rseed is not None and rseed is not False:
        np.random.seed(rseed)
    X = np.random.normal(size=(ncells, ncells))
    Y = np.random.normal(size=(ncells, ncells))
    for i in range(z.size):
        nu = cm.z_to_nu(z[i])
        D = cm.z_to_cdist(z[i])
        U = (np.mgrid[-ncells/2:ncells/2, -ncells/2:ncells/2] + 0.5)*D/boxsize
        ell = 2*np.pi*np.sqrt(U[0, :, :]**2 + U[1, :, :]**2)
        C = 513*(1000/ell)**2.34*(nu/150)**(-2*2.8 - 2*0.1*np.log(nu/150))
        amp = np.sqrt(boxsize**2/D**2*C/2)
        T = np.abs(np.fft.ifft2(amp*(X + Y*1j)))
        out[..., i] = jansky_2_kelvin(T*1e6, z[i], boxsize=boxsize, ncells=ncells)
    return out.squeeze()


def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
    z = np.atleast_1d(z)
    out = np.zeros((ncells, ncells, z.size))
    area = boxsize**2/cm.z_to_cdist(z.min())**2
    S = np.arange(0.1, S_max, 0.01)
    N = int(10**3.75*trapezoid(S**(-1.6), x=S, dx=0.01)*area)
    if rseed is not None and rseed is not False:
        np.random.seed(rseed)
    x, y = np.random.randint(0, high=ncells, size=(2, N))
    index = 0.7 + 0.1*np.random.random(size=N)
    flux = np.random.choice(S, N)
    for i in range(z.size):
        now = flux*(cm.z_to_nu(z[i])/150)**(-index)
        for p in range(now.size):
            out[x[p], y[p], i] += jansky_2_kelvin(now[p], z[i], boxsize=boxsize, ncells=ncells)
    return out.squeeze()


def _kperp(n, L):
    k = (np.arange(n) - n//2)*2*np.pi/L
    a = k.reshape(-1, 1)
    for i in range(k.size - 1):
        a = np.hstack((a, k.reshape(-1, 1)))
    b = k.reshape(1, -1)
    for i in range(k.size - 1):
        b = np.vstack((b, k.reshape(1, -1)))
    return k, np.sqrt(a**2 + b**2)


def diabolo_filter(z, ncells=None, array=None, boxsize=None, mu=0.5, funct='step', small_base=40):
    assert funct in ['step', 'sigmoid']
    assert ncells or array is not None
    L = conv.LB if boxsize is None else boxsize
    n = max(array.shape) if array is not None else ncells
    filt = np.zeros((n, n, n))
    k, kp = _kperp(n, L)
    low = np.pi/(cm.z_to_cdist(z)*(21./small_base/1e2))
    for i in range(n):
        edge = np.abs(k[i])*(1 - mu**2)/mu
        if funct == 'sigmoid':
            s = 1 - 1./(1 + np.exp(10*(kp - edge)))
        else:
            s = np.ones(kp.shape)
            s[kp <= edge] = 0
        s[kp <= low] = 0
        filt[:, :, i] = s
    if array is not None and array.shape[2] < n:
        a = n//2 - array.shape[2]//2
        filt = filt[:, :, a:a + array.shape[2]]
    return filt


def barrel_filter(z, ncells=None, array=None, boxsize=None, k_par_min=None, small_base=40):
    assert ncells or array is not None
    L = conv.LB if boxsize is None else boxsize
    n = max(array.shape) if array is not None else ncells
    k, kp = _kperp(n, L)
    low = np.pi/(cm.z_to_cdist(z)*(21./small_base/1e2)) if k_par_min is None else k_par_min
    s = np.ones(kp.shape)
    s[kp <= low] = 0
    filt = np.zeros((n, n, n))
    for i in range(n):
        filt[:, :, i] = s
    if array is not None and array.shape[2] < n:
        a = n//2 - array.shape[2]//2
        filt = filt[:, :, a:a + array.shape[2]]
    return filt


def remove_wedge_image(dt, z, mu=0.5, funct='step', boxsize=None, filt=None):
    if filt is None:
        filt = diabolo_filter(z, array=dt, mu=mu, funct=funct, boxsize=boxsize)
    ft = np.fft.fftshift(np.fft.fftn(dt))*filt
    return np.real(np.fft.ifftn(np.fft.ifftshift(ft)))


def rolling_wedge_removal_lightcone(lightcone, redshifts, cell_size=None, chunk_length=None, OMm=None, buffer_threshold=1e-10):
    def invE(z, OMm):
        return 1/np.sqrt(OMm*(1. + z)**3 + (1 - OMm))

    def factor(z, OMm):
        return 1/invE(z, OMm)/(1 + z)*quad(lambda x: invE(x, OMm), 0, z)[0]
    cell = np.min(lightcone.shape) if cell_size is None else cell_size
    n = np.min(lightcone.shape) if chunk_length is None else chunk_length
    Om = const.Omega0 if OMm is None else OMm
    uv = np.fft.fft2(lightcone.astype(np.float32), axes=(0, 1))
    MF = np.array([factor(z, Om) for z in redshifts.astype(np.float32)], dtype=np.float32)
    k = np.fft.fftfreq(len(lightcone), d=cell)
    kl = np.fft.fftfreq(n, d=cell)
    dk = kl[1] - kl[0]
    cube = np.meshgrid(k, k, kl)
    kperp = np.sqrt(cube[0]**2 + cube[1]**2).astype(np.float32)
    kpar = cube[2].astype(np.float32)
    power = np.abs(np.fft.fft(np.blackman(n)))**2
    buf = dk*(np.where(power/np.amax(power) <= buffer_threshold)[0][0] - 1)
    buf = buf.astype(np.float32)
    taper = np.blackman(n).astype(np.float32)[np.newaxis, np.newaxis, :]
    shape = uv.shape
    out = np.empty(shape, dtype=np.float32)
    zero = np.zeros(cube[0].shape, dtype=np.float32)
    uv = np.concatenate((zero, uv, zero), axis=2)
    for i in range(n, shape[-1] + n):
        part = np.copy(uv[..., i - n//2:i - n//2 + n])*taper
        W = kpar/(kperp*MF[min(i - n//2 - 1, shape[-1] - 1)] + buf)
        keep = np.logical_or(W < -1., W > 1.)
        out[..., i - n] = np.real(np.fft.ifftn(np.fft.fft(part, axis=-1)*keep))[..., n//2]
    return out.astype(np.float32)

import numpy as np
from .base import case, ensure, close, same
from .gen import cplx
from ssqueezepy._ssq_cwt import phase_cwt
from ssqueezepy._ssq_stft import phase_stft
from ssqueezepy import ssq_cwt, ssq_stft


def ref(Wx, dWx, gamma, Sfs=None):
    Wx, dWx = Wx.astype('complex128'), dWx.astype('complex128')
    out = np.full(Wx.shape, np.inf)
    big = ~(np.abs(Wx) < gamma)
    v = np.zeros(Wx.shape)
    v[big] = (dWx[big] / Wx[big]).imag / (2 * np.pi)
    if Sfs is not None:
        v = Sfs[:, None] - v
    out[big] = np.abs(v[big])
    return out


def draw(rng):
    M, N = int(rng.integers(1, 9)), int(rng.integers(1, 40))
    dt = ['complex128', 'complex64'][rng.integers(0, 2)]
    Wx, dWx = cplx(rng, M, N).astype(dt), cplx(rng, M, N).astype(dt)
    gamma = [None, 1e-3, .3, 1.][rng.integers(0, 4)]
    par = [None, False, True][rng.integers(0, 3)]
    return Wx, dWx, gamma, par, dt


@case(quick=120)
def cwt_phase(rng, k):
    Wx, dWx, gamma, par, dt = draw(rng)
    g = gamma if gamma else np.sqrt(np.finfo(dt).eps)
    if np.any(np.abs(np.abs(Wx) - g) < 1e-5 * g):
        Wx[np.abs(np.abs(Wx) - g) < 1e-5 * g] = 0
    W0, D0 = Wx.copy(), dWx.copy()
    w = phase_cwt(Wx, dWx, gamma=gamma, parallel=par)
    inp = dict(Wx=W0, dWx=D0, gamma=gamma, parallel=par)
    ensure(w >= 0, 'negative or nan instantaneous frequency', **inp)
    close(w, ref(W0, D0, g), 1e-9 if dt == 'complex128' else 1e-4, 'phase transform', **inp)
    ensure(w.dtype == ('float64' if dt == 'complex128' else 'float32'), 'precision', **inp)


@case(quick=120)
def stft_phase(rng, k):
    Wx, dWx, gamma, par, dt = draw(rng)
    g = gamma if gamma else 10 * np.finfo(dt).eps
    if np.any(np.abs(np.abs(Wx) - g) < 1e-5 * g):
        Wx[np.abs(np.abs(Wx) - g) < 1e-5 * g] = 0
    fs = float(rng.uniform(.5, 400))
    Sfs = np.linspace(0, fs / 2, len(Wx), dtype='float64' if dt == 'complex128' else 'float32')
    W0, D0 = Wx.copy(), dWx.copy()
    w = phase_stft(Wx, dWx, Sfs, gamma=gamma, parallel=par)
    inp = dict(Sx=W0, dSx=D0, Sfs=Sfs, gamma=gamma, parallel=par)
    ensure(w >= 0, 'negative or nan instantaneous frequency', **inp)
    close(w, ref(W0, D0, g, Sfs), 1e-9 if dt == 'complex128' else 1e-4, 'phase transform', **inp)


@case(quick=6)
def end_to_end(rng, k):
    """returned w belongs to the returned transform and derivative"""
    n = int(rng.integers(40, 90))
    x = rng.standard_normal(n)
    fs = float(rng.uniform(.5, 100))
    gamma = 1e-2
    dtype = ['float32', 'float64'][k % 2]
    inp = dict(x=x, fs=fs, gamma=gamma)
    Tx, Wx, f, sc, w, dWx = ssq_cwt(x, ('gmw', {'dtype': dtype}), fs=fs, get_w=True, get_dWx=True, gamma=gamma)
    close(w, ref(Wx, dWx, gamma), 1e-8 if w.dtype == 'float64' else 1e-4, 'ssq_cwt phase transform', **inp)
    Tx, Sx, f, Sfs, w, dSx = ssq_stft(x, fs=fs, dtype=dtype, get_w=True, get_dWx=True, gamma=gamma)
    close(Sfs, np.linspace(0, fs / 2, len(Sx)), 1e-6, 'STFT row frequencies', **inp)
    close(w, ref(Sx, dSx, gamma, Sfs), 1e-8 if w.dtype == 'float64' else 1e-4, 'ssq_stft phase transform', **inp)

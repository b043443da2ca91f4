import numpy as np
from scipy.integrate import quad
from .base import case, ensure, close, same, Skip
from .gen import signal, cplx
from .C10 import omegas, filters, padded
from .C14 import adm
from ssqueezepy import cwt, icwt, Wavelet

WAVS = [('gmw', {}), ('morlet', {}), ('bump', {}), ('gmw', dict(gamma=4, beta=30)), ('gmw', dict(beta=12))]


def adm2(wv):
    f = lambda u: float(np.abs(np.asarray(wv(np.array([np.exp(u)]))).ravel()[0])**2)
    return quad(f, np.log(1e-3), np.log(40.), limit=2000, epsabs=1e-13, points=np.log([.5, 1, 2, 4, 6, 8, 10, 13]))[0]


def adm1(wv):
    f = lambda u: float(np.real(np.asarray(wv(np.array([np.exp(u)]))).ravel()[0]))
    return quad(f, np.log(1e-3), np.log(40.), limit=2000, epsabs=1e-13, points=np.log([.5, 1, 2, 4, 6, 8, 10, 13]))[0]


def scales_of(rng, k):
    """(scales, kind, nv, transition)"""
    nv = [8, 16, 32][int(rng.integers(0, 3))]
    na = int(rng.integers(6, 30))
    s0 = int(rng.integers(4, 60))
    if k % 3 == 0:
        return 2. ** ((s0 + np.arange(na)) / nv), 'log', nv, None
    if k % 3 == 1:
        return rng.uniform(1, 4) + rng.uniform(.2, 3) * np.arange(na), 'linear', None, None
    t = int(rng.integers(2, na - 1))
    ds = [2, 4][int(rng.integers(0, 2))]
    a = (s0 + np.arange(t)) / nv
    b = (s0 + t - 1) / nv + np.arange(1, na - t + 1) * ds / nv
    return 2. ** np.concatenate([a, b]), 'log-piecewise', (nv, nv // ds), t


def weights(sc, kind, nv, t, l1):
    if kind == 'linear':
        return np.pi / 4 / (sc if l1 else sc**1.5)
    if kind == 'log':
        q = np.full(len(sc), float(nv))
    else:
        q = np.where(np.arange(len(sc)) < t, nv[0], nv[1]) * 1.
    return np.log(2) / q / (1 if l1 else np.sqrt(sc))


@case(quick=150, budget=20)
def one_integral(rng, k):
    sc, kind, nv, t = scales_of(rng, k)
    N = int(rng.integers(2, 40))
    l1 = bool(rng.integers(0, 2))
    name, opts = WAVS[int(rng.integers(0, len(WAVS)))]
    norm = dict(norm='bandpass' if l1 else 'energy') if name == 'gmw' else {}
    wav = (name, dict(opts, dtype='float64', **norm))
    batch = k % 4 == 3
    shape = (3, len(sc), N) if batch else (len(sc), N)
    W = cplx(rng, *shape)
    mean = 0 if k % 2 else (rng.standard_normal(3) if batch else float(rng.standard_normal()))
    inp = dict(Wx=W, scales=sc, kind=kind, l1_norm=l1, wavelet=wav, x_mean=mean)
    W0, s0 = W.copy(), sc.copy()
    x = icwt(W, wav, sc, one_int=True, x_mean=mean, l1_norm=l1)
    C = 2 / adm1(Wavelet(wav))
    w = weights(sc, kind, nv, t, l1)
    want = C * (W.real * w[:, None]).sum(axis=-2) + (np.reshape(mean, (-1, 1)) if batch else mean)
    close(x, want, 2e-5, 'inverse', scale=abs(C) * np.abs(W.real * w[:, None]).sum(axis=-2).max() + np.abs(mean).max(), **inp)
    same(W, W0, 'transform changed', **inp)
    same(sc, s0, 'scales changed', **inp)
    # linearity, and the mean enters once
    V = cplx(rng, *shape)
    a, b = rng.standard_normal(2)
    f = lambda U: icwt(U, wav, sc, one_int=True, l1_norm=l1)
    close(f(a * W + b * V), a * f(W) + b * f(V), 1e-10, 'not linear', scale=(np.abs(want).max() + 1) * 10, **inp)
    close(x - f(W), np.broadcast_to(np.reshape(mean, (-1, 1)) if batch else mean, x.shape), 1e-9,
          'mean is not added exactly once', scale=np.abs(want).max() + 1, **inp)


@case(quick=25, budget=10)
def two_integral(rng, k):
    sc, kind, nv, t = scales_of(rng, k)
    N = int(rng.integers(10, 40))
    l1 = bool(rng.integers(0, 2))
    name, opts = WAVS[k % 3]
    norm = dict(norm='bandpass' if l1 else 'energy') if name == 'gmw' else {}
    wav = (name, dict(opts, dtype='float64', **norm))
    W = cplx(rng, len(sc), N)
    wv = Wavelet(wav)
    mean = float(rng.standard_normal())
    pad = ['reflect', 'zero'][k % 2]
    rp = k % 3 == 2                          # given padded, cut to x_len
    kw = {}
    if rp:
        L, N = 64, int(rng.integers(24, 45))
        W = cplx(rng, len(sc), L)
        kw = dict(rpadded=True, x_len=N)
    x = icwt(W, wav, sc, one_int=False, x_mean=mean, l1_norm=l1, padtype=pad, **kw)
    w = weights(sc, kind, nv, t, l1)
    want = np.zeros(N)
    for i, s in enumerate(sc):
        wp, n1 = (W[i], (L - N + 1) // 2) if rp else padded(W[i], pad)
        P = filters(wv, [s], len(wp), nyq=False)[0]
        want += w[i] * np.fft.ifft(np.fft.fft(wp) * P).real[n1:n1 + N]
    want = 2 / adm2(wv) * want + mean
    close(x, want, 1e-3, 'double-integral inverse', scale=np.abs(want).max(), Wx=W, scales=sc, kind=kind,
          l1_norm=l1, wavelet=wav, padtype=pad, **kw)


@case(quick=12, budget=12)
def roundtrip(rng, k):
    """band-limited signals come back (the paper's own accuracy: a few percent)"""
    N = 256
    t = np.arange(N)
    x = np.cos(2 * np.pi * .08 * t) + np.cos(2 * np.pi * .17 * t + 1)
    m = float(rng.uniform(-2, 2))
    wav = [('gmw', {'dtype': 'float64'}), ('morlet', {'dtype': 'float64'})][k // 4 % 2]
    l1 = bool(k // 2 % 2)
    kw = dict(scales=['log', 'log-piecewise'][k % 2], l1_norm=l1)
    W, sc = cwt(x, wav, **kw)
    y = icwt(W, wav, sc, x_mean=m, l1_norm=l1) - m
    e = np.abs(y - x)[32:-32].max()
    ensure(e < .1, 'reconstruction error %.3g' % e, wavelet=wav, **kw)

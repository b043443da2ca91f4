import numpy as np
from .base import case, ensure, close, same, Skip
from .gen import cplx, signal
from .C10 import omegas
from .C17 import wavelet
from ssqueezepy import ssq_cwt, ssq_stft, Wavelet
from ssqueezepy.ssqueezing import ssqueeze
from ssqueezepy.utils import process_scales


def center(wv, s, L, kind):
    """frequency (radian/sample) where the sampled wavelet peaks / its energy centres"""
    w = np.sort(omegas(L))
    p = np.abs(np.asarray(wv(s * w)).ravel())**2
    return w[np.argmax(p)] if kind == 'peak' else np.trapezoid(p * w) / np.trapezoid(p)


def up(N):
    return 2 ** (1 + int(np.round(np.log2(N))))


def grid_ok(f, fm, fM, kind, what, tol=1e-9, **i):
    na = len(f)
    ensure((np.diff(f) > 0).all(), what + ': ascending', **i)
    j = np.arange(na) / (na - 1)
    want = fm * (fM / fm)**j if kind == 'log' else fm + (fM - fm) * j
    close(f, want, tol, what, **i)


def scales_of(rng, k):
    na = int(rng.integers(8, 40))
    if k % 2:
        return rng.uniform(4, 6) + rng.uniform(.5, 2) * np.arange(na), 'linear'
    return 2. ** ((int(rng.integers(20, 30)) + np.arange(na)) / 8), 'log'


@case(quick=150, budget=20)
def cwt_grid(rng, k):
    wv = wavelet(k // 2)
    sc, kind = scales_of(rng, k)
    N = int(rng.integers(20, 300))
    fs = float(10. ** rng.uniform(-3, 6))
    W, D = cplx(rng, len(sc), N), cplx(rng, len(sc), N)
    mr = ['maximal', 'peak', 'energy', 'tuple', 'list'][int(rng.integers(0, 5))]
    want = kind
    if mr in ('tuple', 'list'):
        a = float(10. ** rng.uniform(-4, 1)) * fs
        b = a * float(rng.uniform(1.5, 1e3))
        arg, fm, fM = ((a, b) if mr == 'tuple' else [a, b]), a, b
    elif mr == 'maximal':
        arg, fm, fM = mr, fs / N, fs / 2
    else:
        arg = mr
        L = up(N) if k % 3 else N
        fm, fM = [center(wv, s, L, mr) / (2 * np.pi) * fs for s in (sc[-1], sc[0])]
        if not 0 < fm < fM:
            raise Skip()
    q = {}
    if k % 5 == 4:
        want = q['ssq_freqs'] = ['log', 'linear'][int(rng.integers(0, 2))]
    i = dict(scales=sc, N=N, fs=fs, maprange=arg, wavelet=wv.name, **q)
    t = dict(t=np.arange(N) / fs) if k % 7 == 3 else dict(fs=fs)
    Tx, f = ssqueeze(W, None, scales=sc, wavelet=wv, maprange=arg, was_padded=bool(k % 3), dWx=D, gamma=1e-3, **q, **t)
    ensure(Tx.shape == W.shape and f.shape == (len(sc),), 'one frequency per row', got=(Tx.shape, f.shape), **i)
    grid_ok(f, fm, fM, want, 'frequencies', 1e-6 if mr == 'energy' or 't' in t else 1e-9, **i)


@case(quick=60, budget=15)
def piecewise_grid(rng, k):
    """two-slope scales: both slopes, both bounds, the transition mirrored"""
    wv = wavelet(k)
    N = int(2 ** rng.uniform(7.7, 10.5))
    nv = int(rng.choice([8, 16, 32]))
    fs = float(10. ** rng.uniform(-6, 9))
    sc = process_scales('log-piecewise', N, wv, nv=nv).ravel()
    d = np.round(np.diff(np.log2(sc)) * nv)
    if not (d > 1).any():
        raise Skip()
    idx = int(np.argmax(d > 1)) + 1           # first scale of the second slope
    W = np.zeros((len(sc), N), complex)
    _, f = ssqueeze(W, None, scales=sc, wavelet=wv, maprange='peak', fs=fs, dWx=W, gamma=1e-3)
    L = up(N)
    f0, f1, f2 = [center(wv, s, L, 'peak') / (2 * np.pi) * fs for s in (sc[-1], sc[idx], sc[0])]
    na = len(sc)
    i = dict(N=N, nv=nv, fs=fs, wavelet=wv.name, bounds=(f0, f1, f2), got=f)
    ensure(f.shape == (na,) and np.isfinite(f).all(), 'finite', **i)
    close(np.array([f[0], f[na - idx - 1], f[-1]]), np.array([f0, f1, f2]), 1e-8, 'bounds of the two pieces', **i)
    lf = np.log(f)
    for part, nm in ((lf[:na - idx], 'low piece'), (lf[na - idx - 1:], 'high piece')):
        if len(part) > 2:
            close(np.diff(part), np.full(len(part) - 1, (part[-1] - part[0]) / (len(part) - 1)), 1e-7,
                  nm + ' is not geometric', scale=max(np.abs(np.diff(part)).max(), 1e-9), **i)


@case(quick=60, budget=10)
def own_grid(rng, k):
    """bins given by the user come back as given, whatever their number"""
    wv = wavelet(k)
    sc, kind = scales_of(rng, k)
    N, nf = int(rng.integers(10, 60)), int(rng.integers(3, 50))
    f = [np.linspace(.01, .4, nf), 2. ** (-8 + np.arange(nf) / 8)][k // 2 % 2]
    W, D = cplx(rng, len(sc), N), cplx(rng, len(sc), N)
    f0 = f.copy()
    for fl in (False, True):
        Tx, g = ssqueeze(W, None, ssq_freqs=f, scales=sc, wavelet=wv, dWx=D, gamma=1e-3, flipud=fl)
        same(g, f0[::-1] if fl else f0, 'given bins', flipud=fl)
        ensure(Tx.shape == (nf, N), 'rows', got=Tx.shape)
    same(f, f0, 'bins changed')


@case(quick=20, budget=15)
def stft_grid(rng, k):
    N, n_fft = int(rng.integers(60, 120)), int(rng.integers(9, 50))
    fs = float(10. ** rng.uniform(-2, 4))
    x = signal(rng, N)
    o = ssq_stft(x, n_fft=n_fft, fs=fs, dtype='float64')
    F = n_fft // 2 + 1
    ensure(o[0].shape == (F, N) and o[2].shape == (F,), 'shapes', n_fft=n_fft)
    close(np.sort(o[2]), np.linspace(0, .5, F) * fs, 1e-12, 'frequencies', n_fft=n_fft, fs=fs)


@case(quick=12, budget=15)
def end_to_end(rng, k):
    wv = wavelet(k)
    N = int(rng.integers(150, 300))
    fs = float(10. ** rng.uniform(-2, 4))
    pad = ['reflect', None][k % 2]
    x = signal(rng, N)
    o = ssq_cwt(x, wv, scales='log:maximal', nv=8, fs=fs, padtype=pad, maprange='peak')
    sc, f = np.asarray(o[3]).ravel(), np.sort(o[2])
    L = up(N) if pad else N
    fm, fM = [center(wv, s, L, 'peak') / (2 * np.pi) * fs for s in (sc[-1], sc[0])]
    grid_ok(f, fm, fM, 'log', 'frequencies of ssq_cwt', N=N, fs=fs, padtype=pad, wavelet=wv.name)
    ensure(o[0].shape[0] == len(f), 'rows')
    o = ssq_cwt(x, wv, scales='log:maximal', nv=8, fs=fs, padtype=pad, maprange='maximal')
    grid_ok(np.sort(o[2]), fs / N, fs / 2, 'log', 'maximal range', N=N, fs=fs, padtype=pad)

import numpy as np
from .base import case, ensure, close, same, Skip
from .gen import signal
from ssqueezepy import cwt, Wavelet
from ssqueezepy.utils import trigdiff

WAVS = [('gmw', {}), ('morlet', {}), ('bump', {}), ('cmhat', {}), ('hhhat', {}), ('gmw', dict(gamma=2., beta=8.)),
        ('gmw', dict(order=1)), ('morlet', dict(mu=7.))]
MODES = dict(reflect='reflect', zero='constant', wrap='wrap', symmetric='symmetric', replicate='edge')


def omegas(L):
    """angular frequencies of the DFT bins, written out"""
    k = np.arange(L)
    return 2 * np.pi * np.where(k <= L // 2, k, k - L) / L


def padded(x, pad):
    N = len(x)
    if pad is None:
        return x, 0
    up = 2 ** (1 + int(np.round(np.log2(N))))
    n2 = (up - N) // 2
    n1 = up - N - n2
    return np.pad(x, (n1, n2), mode=MODES[pad]), n1


def filters(wv, sc, L, nyq=True):
    w = omegas(L)
    P = np.stack([np.asarray(wv(s * w)).ravel() for s in sc])
    if nyq and L % 2 == 0:
        P[:, L // 2] /= 2
    return P


def reference(x, wv, sc, dt, pad, rpadded, l1):
    N = len(x)
    xp, n1 = padded(x, pad)
    L = len(xp)
    P = filters(wv, sc, L)
    X = np.fft.fft(xp)
    W = np.fft.ifft(X * P)
    D = np.fft.ifft(X * P * (1j * omegas(L) / dt))
    if not (rpadded or pad is None):
        W, D = W[:, n1:n1 + N], D[:, n1:n1 + N]
    if not l1:
        W, D = W * np.sqrt(sc)[:, None], D * np.sqrt(sc)[:, None]
    return W, D


@case(quick=120, budget=25)
def product(rng, k):
    N = int(rng.integers(3, 140))
    x = signal(rng, N)
    name, opts = WAVS[k % len(WAVS)]
    wav = (name, dict(opts, dtype='float64'))
    pad = [None, 'reflect', 'zero', 'wrap', 'symmetric', 'replicate'][int(rng.integers(0, 6))]
    l1 = bool(rng.integers(0, 2))
    norm = dict(norm='bandpass' if l1 else 'energy') if name == 'gmw' else {}
    wv = Wavelet((name, dict(opts, dtype='float64', **norm)))
    fs = float(10. ** rng.uniform(-1, 3))
    na = int(rng.integers(2, 9))
    sc = [2. ** (rng.uniform(0, 3) + np.arange(na) / 4), rng.uniform(1, 5) + rng.uniform(.2, 3) * np.arange(na)][k % 2]
    rp = bool(rng.integers(0, 2))
    kw = dict(scales=sc, fs=fs, padtype=pad, rpadded=rp, l1_norm=l1, vectorized=bool(rng.integers(0, 2)))
    inp = dict(x=x, wavelet=wav, **kw)
    x0, s0 = x.copy(), sc.copy()
    Wx, s, dWx = cwt(x, wav, derivative=True, **kw)
    W2, s2 = cwt(x, wav, **kw)
    W, D = reference(x, wv, sc, 1 / fs, pad, rp, l1)
    close(Wx, W, 1e-9, 'wavelet transform', scale=max(np.abs(W).max(), 1e-6 * np.abs(x).max()), **inp)
    close(dWx, D, 1e-9, 'derivative', scale=max(np.abs(D).max(), fs * 1e-6 * np.abs(x).max()), **inp)
    close(W2, Wx, 1e-13, 'transform depends on derivative=True', **inp)
    close(s, sc, 1e-14, 'scales', **inp)
    same(x, x0, 'signal changed', **inp)
    same(sc, s0, 'scales changed', **inp)
    if k % 4 == 0:
        w32 = (name, dict(opts, dtype='float32'))
        if name == 'gmw' and not l1:
            return          # documented: computed in double precision
        A = cwt(x, w32, derivative=True, **kw)
        ensure(A[0].dtype == np.complex64, 'precision', **inp)
        close(A[0], W, 3e-4, 'single precision transform', scale=max(np.abs(W).max(), 1e-2 * np.abs(x).max()), **inp)


@case(quick=40, budget=10)
def orders(rng, k):
    """higher-order Morse wavelets: each order on its own, or their mean"""
    N = int(rng.integers(20, 80))
    x = signal(rng, N)
    sc = 2. ** (1 + np.arange(5) / 3)
    ords = [(0, 1), (0, 1, 2), [1, 2], range(3), 2, (1,)][k % 6]
    pad = ['reflect', None][k // 6 % 2]
    tup = ords if isinstance(ords, (tuple, list, range)) else (ords,)
    l1 = bool(rng.integers(0, 2))
    norm = 'bandpass' if l1 else 'energy'
    ref = [reference(x, Wavelet(('gmw', dict(order=o, dtype='float64', norm=norm))), sc, 1., pad, False, l1) for o in tup]
    for avg in (True, False, None):
        A = cwt(x, ('gmw', {'dtype': 'float64'}), scales=sc, order=ords, average=avg, derivative=True, padtype=pad,
                l1_norm=l1)
        inp = dict(x=x, order=ords, average=avg, padtype=pad, l1_norm=l1)
        if len(tup) == 1:
            W, D = ref[0]
            got = A[0], A[2]
            if avg is None and isinstance(ords, tuple):
                pass
        elif avg or avg is None:
            W, D = np.mean([r[0] for r in ref], 0), np.mean([r[1] for r in ref], 0)
            got = A[0], A[2]
        else:
            W, D = np.stack([r[0] for r in ref]), np.stack([r[1] for r in ref])
            got = np.stack(A[0]), np.stack(A[2])
        close(got[0], W, 1e-9, 'transform', **inp)
        close(got[1], D, 1e-9, 'derivative', **inp)
    w = Wavelet(('gmw', dict(order=int(rng.integers(0, 3)), norm='energy' if l1 else 'bandpass')))
    try:
        cwt(x, w, scales=sc, l1_norm=l1)
    except ValueError:
        return
    ensure(False, 'wavelet of the other norm accepted', wavelet=w.name, l1_norm=l1)


@case(quick=60)
def trig(rng, k):
    """frequency-domain differentiation of transform rows"""
    F, N = int(rng.integers(1, 6)), int(rng.integers(4, 60))
    A = rng.standard_normal((F, N)) + 1j * rng.standard_normal((F, N))
    fs = float(10. ** rng.uniform(-1, 2))
    pad = ['reflect', 'zero', 'wrap'][k % 3]
    d = trigdiff(A, fs, padtype=pad)
    want = []
    for r in A:
        xp, n1 = padded(r, pad)
        want.append(np.fft.ifft(np.fft.fft(xp) * 1j * omegas(len(xp)) * fs)[n1:n1 + N])
    close(d, np.array(want), 1e-10, 'trigonometric derivative', A=A, fs=fs, padtype=pad)


@case(quick=30)
def nonfinite(rng, k):
    """non-finite samples are treated as zeros; nothing else changes"""
    N = int(rng.integers(20, 60))
    x = signal(rng, N, 0)
    y = x.copy()
    for v in (np.inf, -np.inf, np.nan):
        if rng.random() < .7:
            y[rng.integers(0, N)] = v
    x = np.where(np.isfinite(y), x, 0.)
    kw = dict(wavelet=('gmw', {'dtype': 'float64'}), scales=2. ** (1 + np.arange(4) / 4))
    close(cwt(y, **kw)[0], cwt(x, **kw)[0], 1e-12, 'non-finite samples are not treated as zeros', y=y)

import numpy as np
from .base import case, ensure, close, same, Skip
from .gen import signal
from ssqueezepy import cwt, ssq_cwt, Wavelet
from ssqueezepy.utils import process_scales

WAVS = ['gmw', 'morlet', 'bump', 'cmhat', 'hhhat']


@case(quick=15)
def looped(rng, k):
    n = int(rng.integers(50, 130))
    X = signal(rng, n) if k % 3 else np.stack([signal(rng, n), signal(rng, n)])
    wav = (WAVS[k % 5], {'dtype': 'float64'})
    pad = ['reflect', 'zero', None][k % 3]
    kw = dict(scales='log:maximal', nv=8, fs=float(rng.uniform(.5, 30)), derivative=True,
              l1_norm=bool(rng.integers(0, 2)), padtype=pad, rpadded=bool(rng.integers(0, 2)))
    A = cwt(X, wav, vectorized=True, **kw)
    B = cwt(X, wav, vectorized=False, **kw)
    for j, nm in ((0, 'Wx'), (1, 'scales'), (2, 'dWx')):
        close(B[j], A[j], 1e-9, 'vectorized and looped %s differ' % nm, X=X, wavelet=wav[0], **kw)
    # same with an explicit array of scales
    sc = np.sort(rng.uniform(2, 20, 6))
    kw['scales'] = 2. ** (1 + np.arange(6) / 8)
    if k % 2:                                # any function of frequency, negative ones included
        wav = (Wavelet(lambda w: np.exp(-(w - 2)**2 / 2) + .5 * np.exp(-(w + 1)**2)), '')
    A, B = cwt(X, wav[0] if k % 2 else wav, vectorized=True, **kw), cwt(X, wav[0] if k % 2 else wav, vectorized=False, **kw)
    for j in (0, 2):
        close(B[j], A[j], 1e-5 if k % 2 else 1e-9, 'vectorized and looped differ (array scales)', X=X, wavelet=str(wav[0]))


@case(quick=12)
def cached(rng, k):
    """any history of lengths/scales on one wavelet object gives what a fresh one gives"""
    wav = (WAVS[k % 5], {'dtype': ['float64', 'float32'][(k // 5) % 2]})
    W = Wavelet(wav)
    tol = 1e-10 if wav[1]['dtype'] == 'float64' else 1e-5
    hist = []
    sc1, sc2 = 2. ** (1 + np.arange(5) / 8), 2. ** (1.5 + np.arange(5) / 8)
    sc3 = 2. ** (1 + np.arange(7) / 4)
    for step in range(6):
        n = [60, 100, 61, 120][rng.integers(0, 4)]
        sc = [sc1, sc2, sc3, sc1.astype('float32')][rng.integers(0, 4)]
        x = signal(rng, n, 0)
        c = [None, True, False][rng.integers(0, 3)]
        pad = ['reflect', None][rng.integers(0, 2)]
        hist.append((n, len(sc), float(sc[0]), c, pad))
        A = cwt(x, W, scales=sc, cache_wavelet=c, derivative=True, padtype=pad)
        B = cwt(x, Wavelet(wav), scales=sc, cache_wavelet=False, derivative=True, padtype=pad)
        for j in (0, 2):
            close(A[j], B[j], tol, 'cached wavelet gives a different transform', history=hist, wavelet=wav)


@case(quick=40)
def psih(rng, k):
    wav = (WAVS[k % 5], {'dtype': 'float64'})
    W = Wavelet(wav)
    hist = []
    for step in range(6):
        N = int([32, 33, 64, 40][rng.integers(0, 4)])
        sc = [np.array([3.]), np.array([2., 5.]), np.array([[2.], [7.]]), np.array([2., 7.]), np.array([2., 5., 7.]),
              np.array([2., 5., 8.]), np.array([3., 5., 7.])][rng.integers(0, 7)]
        nh = [True, False][rng.integers(0, 2)]
        hist.append((N, str(sc), nh))
        if rng.random() < .3:
            W.N = N
            A = W.Psih(scale=sc, nohalf=nh)
        else:
            A = W.Psih(scale=sc, N=N, nohalf=nh)
        if rng.random() < .3:
            try:
                W.Psih(scale=np.ones((2, 2)), N=N)
            except ValueError:
                hist.append('a rejected request')
            A = W.Psih(scale=sc, N=N, nohalf=nh)
            ensure(A is not None, 'no filters after a rejected request', history=hist, wavelet=wav)
        B = Wavelet(wav)(scale=sc, N=N, nohalf=nh)
        if rng.random() < .5:
            close(np.squeeze(A), np.squeeze(B), 1e-12, 'frequency-domain wavelet differs from a fresh one', history=hist, wavelet=wav)
            sc *= rng.uniform(1.1, 2)       # the caller reuses its own array
            hist.append('scales array modified by the caller')
            A, B = W.Psih(scale=sc, N=N, nohalf=nh), Wavelet(wav)(scale=sc, N=N, nohalf=nh)
        close(np.squeeze(A), np.squeeze(B), 1e-12, 'cached frequency-domain wavelet differs from a fresh one', history=hist, wavelet=wav)

import numpy as np
from scipy.integrate import quad
from .base import case, ensure, close, same, Skip
from .gen import cplx
from .C12 import window_of, pad_to
from ssqueezepy import issq_cwt, issq_stft, Wavelet

_adm = {}


def adm(name, opts):
    """integral of psih(w) / w over w > 0, by adaptive quadrature"""
    key = (name, tuple(sorted(opts.items())))
    if key not in _adm:
        wv = Wavelet((name, dict(opts, dtype='float64')))
        f = lambda u: float(np.real(np.asarray(wv(np.array([np.exp(u)]))).ravel()[0]))
        _adm[key] = quad(f, np.log(1e-3), np.log(40.), limit=2000, epsabs=1e-12,
                         points=np.log([.5, 1, 2, 4, 6, 8, 10, 13]))[0]
    return _adm[key]


WAVS = [('gmw', {}), ('gmw', dict(beta=12)), ('morlet', {}), ('bump', {}), ('gmw', dict(gamma=4, beta=30)),
        ('morlet', dict(mu=8.))]


def bands(rng, F, N):
    K = int(rng.integers(1, 5))
    cc = rng.integers(0, F + 3, (N, K))
    cc[rng.random((N, K)) < .1] = -1
    if rng.random() < .3:
        cc[:] = rng.integers(0, F, K)
    cw = rng.integers(0, 5, (N, K))
    if rng.random() < .5:
        cw[:] = rng.integers(0, 4, K)
    return cc, cw


def reference(Tx, cc, cw):
    F, N = Tx.shape
    K = cc.shape[1]
    out, used = np.zeros((K + 1, N)), np.zeros((F, N), bool)
    cover = np.zeros((F, N), int)
    for t in range(N):
        for q in range(K):
            if cc[t, q] == -1:
                continue
            for r in range(F):
                if abs(r - cc[t, q]) <= cw[t, q]:
                    out[q, t] += Tx[r, t].real
                    used[r, t] = True
                    cover[r, t] += 1
    out[K] = (Tx.real * ~used).sum(axis=0)
    return out, cover.max() <= 1


def run(inv, Tx, c, rng, k, inp, tol):
    F, N = Tx.shape
    T0 = Tx.copy()
    full = inv(Tx)
    close(full, c * Tx.real.sum(axis=0), tol, 'full inverse', scale=abs(c) * np.abs(Tx).sum(axis=0).max() + 1e-300, **inp)
    for q in range(3):
        cc, cw = bands(rng, F, N)
        want, disjoint = reference(Tx, cc, cw)
        a, b = cc.copy(), cw.copy()
        if cc.shape[1] == 1 and q:
            a, b = a[:, 0], b[:, 0]
        a0, b0 = a.copy(), b.copy()
        x = inv(Tx, cc=a, cw=b)
        sc = abs(c) * np.abs(Tx).sum(axis=0).max() + 1e-300
        close(x, c * want, tol, 'components and remainder', scale=sc, cc=cc, cw=cw, **inp)
        if disjoint:
            close(x.sum(axis=0), full, tol, 'components do not add up to the full inverse', scale=sc, cc=cc, cw=cw, **inp)
        same(a, a0, 'cc changed'), same(b, b0, 'cw changed')
    same(Tx, T0, 'transform changed', **inp)


@case(quick=60, budget=20)
def cwt_inverse(rng, k):
    F, N = int(rng.integers(1, 25)), int(rng.integers(1, 25))
    Tx = cplx(rng, F, N)
    name, opts = WAVS[k % len(WAVS)]
    inp = dict(Tx=Tx, wavelet=(name, opts))
    wv = (name, dict(opts, dtype='float64'))
    run(lambda T, **kw: issq_cwt(T, wv, **kw), Tx, 2 / adm(name, opts), rng, k, inp, 2e-5)


@case(quick=120, budget=15)
def stft_inverse(rng, k):
    n_fft = int(rng.integers(9, 40))
    F, N = n_fft // 2 + 1, int(rng.integers(1, 25))
    Tx = cplx(rng, F, N)
    win_len = n_fft if k % 3 else int(rng.integers(9, n_fft + 1))
    arg, w = window_of(rng, k, win_len)
    w = pad_to(w, n_fft)
    inp = dict(Tx=Tx, window=arg, n_fft=n_fft, win_len=win_len)
    kw = dict(n_fft=n_fft, win_len=win_len)
    if n_fft % 2 == 0 and win_len == n_fft and k % 2:
        kw = {}
    run(lambda T, **q: issq_stft(T, arg, **q, **kw), Tx, 2 / w[n_fft // 2], rng, k, inp, 1e-6)
    for bad in (dict(modulated=False), dict(hop_len=2)):
        try:
            issq_stft(Tx, arg, n_fft=n_fft, win_len=win_len, **bad)
        except ValueError:
            continue
        ensure(False, 'uninvertible settings accepted', settings=bad)

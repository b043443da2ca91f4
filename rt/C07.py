import numpy as np
from .base import case, ensure, close, same, Skip
from . import ssqref as R
from .gen import signal
from ssqueezepy import ssq_cwt, ssq_stft
from ssqueezepy.ssqueezing import ssqueeze
from ssqueezepy.utils import process_scales


def by_returned_rows(T, f, V, w, c, kind):
    """Tx recomputed with the returned frequencies only: row r collects what is nearest
    to f[r]"""
    f = np.asarray(f, float)
    o = np.argsort(f)
    t = None
    bad = np.zeros(w.shape, bool)
    d = np.abs(np.diff(f[o])).min()
    fin = np.isfinite(w)
    g = np.log2(f[o]) if kind == 'log' else f[o]
    with np.errstate(divide='ignore'):
        a = np.log2(w) if kind == 'log' else w
    a = np.clip(np.where(fin, a, g[0]), g[0], g[-1])
    dist = np.sort(np.abs(a[..., None] - g), axis=-1)
    bad = fin & (dist[..., 1] - dist[..., 0] < 1e-6 * np.diff(g).min())
    k = o[np.argmin(np.abs(a[..., None] - g), axis=-1)]
    want = np.zeros(T.shape, complex)
    for i in range(V.shape[0]):
        for j in range(V.shape[1]):
            if fin[i, j]:
                want[k[i, j], j] += V[i, j] * c[i]
    cols = ~bad.any(axis=0)
    return want, cols


@case(quick=60)
def public(rng, k):
    kind = ['log', 'lin'][k % 2]
    d = R.draw(rng, kind, M=int(rng.integers(4, 9)))
    if d['n'] < 4:
        raise Skip()
    nv = 16
    scales = 2. ** (1 + np.arange(d['M']) / nv)
    c = np.full(d['M'], np.log(2) / nv)
    for flip in (False, True):
        for w in (d['w'], None):
            v = d['v'].copy()
            T, f = ssqueeze(d['W'].copy(), w, ssq_freqs=v, scales=scales, flipud=flip,
                            gamma=d['gamma'], dWx=d['D'])
            i = dict(W=d['W'], w=d['w'], ssq_freqs=d['v'], flipud=flip, given_w=w is not None)
            ensure(len(f) == len(T), 'rows and frequencies differ in number', **i)
            same(np.sort(f), d['v'], 'returned frequencies are not the requested ones', **i)
            same(v, d['v'], 'requested frequencies modified', **i)
            want, cols = by_returned_rows(T, f, d['W'], d['w'], c, kind)
            close(T[:, cols], want[:, cols], 1e-8, 'row of Tx does not hold its frequency', **i)
    # STFT
    d = R.draw(rng, 'lin', stft=True)
    for flip in (False, True):
        T, f = ssqueeze(d['W'].copy(), None, ssq_freqs=d['v'].copy(), Sfs=d['Sfs'], flipud=flip,
                        gamma=d['gamma'], dWx=d['D'], transform='stft')
        c = np.full(d['M'], d['v'][1] - d['v'][0])
        i = dict(W=d['W'], D=d['D'], Sfs=d['Sfs'], ssq_freqs=d['v'], flipud=flip)
        want, cols = by_returned_rows(T, f, d['W'], d['w'], c, 'lin')
        close(T[:, cols], want[:, cols], 1e-8, 'row of STFT Tx does not hold its frequency', **i)


@case(quick=10)
def end_to_end(rng, k):
    n = int(rng.integers(64, 150))
    x = signal(rng, n, [0, 1, 2, 4][k % 4])
    fs = float(rng.uniform(.5, 50))
    res = []
    for flip in (False, True):
        kw = dict(fs=fs, flipud=flip, get_w=True, gamma=1e-4)
        Tx, Wx, f, sc, w = ssq_cwt(x, ('gmw', {'dtype': 'float64'}), scales='log:maximal',
                                   ssq_freqs=['log', 'linear'][k % 2], maprange='maximal', **kw)
        _, _, _, nv = process_scales(sc, n, get_params=True)
        c = np.full(len(sc), np.log(2) / nv)
        i = dict(x=x, fs=fs, flipud=flip)
        ensure(len(f) == len(Tx), 'rows and frequencies differ in number', **i)
        want, cols = by_returned_rows(Tx, f, Wx, w, c, ['log', 'lin'][k % 2])
        close(Tx[:, cols], want[:, cols], 1e-7, 'ssq_cwt: row does not hold its frequency', **i)
        ensure(np.all(np.diff(f) < 0) if flip else np.all(np.diff(f) > 0),
               'ssq_cwt: frequency order', **i)
        Sx, S, f2, Sfs, w2 = ssq_stft(x, dtype='float64', **kw)
        want, cols = by_returned_rows(Sx, f2, S, w2, np.full(len(Sfs), Sfs[1] - Sfs[0]), 'lin')
        close(Sx[:, cols], want[:, cols], 1e-7, 'ssq_stft: row does not hold its frequency', **i)
        ensure(np.all(np.diff(f2) < 0) if flip else np.all(np.diff(f2) > 0),
               'ssq_stft: frequency order', **i)
        res.append((Tx, f, Sx, f2))
    (A, fa, B, fb), (C, fc, D, fd) = res
    close(C[::-1], A, 1e-9, 'flipud changes more than the row order', x=x, fs=fs)
    close(D[::-1], B, 1e-9, 'flipud changes more than the row order (stft)', x=x, fs=fs)
    same(fc[::-1], fa, 'flipud frequencies'), same(fd[::-1], fb, 'flipud frequencies')

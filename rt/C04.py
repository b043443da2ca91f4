import numpy as np
from .base import case, ensure, close, same, Skip
from . import ssqref as R
from .C03 import const_of, inp
from .gen import signal
from ssqueezepy.algos import indexed_sum_onfly, ssqueeze_fast, indexed_sum
from ssqueezepy import ssq_cwt, ssq_stft, issq_cwt, issq_stft
from ssqueezepy.ssqueezing import ssqueeze
from ssqueezepy.utils import process_scales


def mass(W, w, c, colw=None):
    c = np.broadcast_to(np.asarray(c, float).reshape(-1), (len(W),))
    return (np.where(np.isfinite(w), W, 0) * c[:, None]).sum(axis=0)


@case(quick=150)
def column_sums(rng, k):
    d = R.draw(rng)
    c = const_of(rng, d['M'])
    flip, par = bool(rng.integers(0, 2)), [None, False, True][rng.integers(0, 3)]
    want = mass(d['W'], d['w'], c)
    for fused in (False, True):
        out = np.zeros((d['n'], d['N']), 'complex128')
        if fused:
            T = ssqueeze_fast(d['W'], d['D'], d['v'], c, d['kind'] != 'lin', flip,
                              d['gamma'], out=out, parallel=par)
        else:
            T = indexed_sum_onfly(d['W'], d['w'], d['v'], c, d['kind'] != 'lin', flip,
                                  out=out, parallel=par)
        close(T.sum(axis=0), want, 1e-8, 'sum over frequencies of Tx at each time',
              scale=1 + np.abs(want).max(), **inp(d, const=c, flipud=flip, parallel=par, fused=fused))


@case(quick=60)
def stft_column_sums(rng, k):
    d = R.draw(rng, 'lin', stft=True)
    c = const_of(rng, d['M'])
    want = mass(d['W'], d['w'], c)
    out = np.zeros((d['n'], d['N']), 'complex128')
    T = ssqueeze_fast(d['W'], d['D'], d['v'], c, False, bool(k % 2), d['gamma'], out=out,
                      Sfs=d['Sfs'])
    close(T.sum(axis=0), want, 1e-8, 'sum over frequencies of Tx at each time',
          scale=1 + np.abs(want).max(), **inp(d, const=c))


@case(quick=60)
def time_locality(rng, k):
    """changing column j of the inputs only changes column j of Tx"""
    d = R.draw(rng)
    c = const_of(rng, d['M'])
    j = int(rng.integers(0, d['N']))
    W2, w2, D2 = d['W'].copy(), d['w'].copy(), d['D'].copy()
    W2[:, j] *= -1.7
    w2[:, j] = d['v'][rng.integers(0, d['n'], d['M'])]
    D2[:, j] = W2[:, j] * 2j * np.pi * w2[:, j]
    keep = np.arange(d['N']) != j
    log = d['kind'] != 'lin'
    T1 = indexed_sum_onfly(d['W'], d['w'], d['v'], c, log, out=np.zeros((d['n'], d['N']), complex))
    T2 = indexed_sum_onfly(W2, w2, d['v'], c, log, out=np.zeros((d['n'], d['N']), complex))
    same(T1[:, keep], T2[:, keep], 'other times changed', **inp(d, column=j))
    T1 = ssqueeze_fast(d['W'], d['D'], d['v'], c, log, gamma=d['gamma'], out=np.zeros((d['n'], d['N']), complex))
    T2 = ssqueeze_fast(W2, D2, d['v'], c, log, gamma=d['gamma'], out=np.zeros((d['n'], d['N']), complex))
    same(T1[:, keep], T2[:, keep], 'other times changed (fused)', **inp(d, column=j))


@case(quick=80)
def indexed_sum_rows(rng, k):
    M, N = int(rng.integers(1, 8)), int(rng.integers(1, 20))
    a = rng.standard_normal((M, N)) + 1j * rng.standard_normal((M, N))
    kk = rng.integers(0, M, (M, N))
    want = np.zeros((M, N), complex)
    for i in range(M):
        for j in range(N):
            want[kk[i, j], j] += a[i, j]
    for par in (False, True):
        T = indexed_sum(a, kk, parallel=par)
        close(T, want, 1e-12, 'indexed_sum', a=a, k=kk, parallel=par)
        close(T.sum(0), a.sum(0), 1e-12, 'indexed_sum loses mass', scale=10, a=a, k=kk)


@case(quick=14)
def end_to_end(rng, k):
    n = int(rng.integers(64, 160))
    x = signal(rng, n)
    sq = ['sum', 'abs', 'lebesgue', lambda W: W * W][k % 4]
    sc = ['log:maximal', 'log-piecewise', np.linspace(2., 30., 40)][k % 3]
    gamma = 1e-4
    kw = dict(gamma=gamma, squeezing=sq, flipud=bool(k % 2), get_w=True,
              maprange='peak' if k % 3 == 1 else 'maximal')
    Tx, Wx, f, scales, w = ssq_cwt(x, ('gmw', {'dtype': 'float64'}), scales=sc, **kw)
    if k % 3 == 2:
        c = (scales[1] - scales[0]) / scales
    else:
        _, _, _, nv = process_scales(scales, n, get_params=True)
        c = np.broadcast_to(np.log(2) / np.asarray(nv, float).reshape(-1), (len(scales),))
    V = (Wx if sq == 'sum' else np.abs(Wx) if sq == 'abs' else
         np.ones(Wx.shape) / len(Wx) if sq == 'lebesgue' else Wx * Wx)
    want = mass(V, w, c)
    i = dict(x=x, squeezing=str(sq), scales=str(sc))
    close(Tx.sum(axis=0), want, 1e-7, 'ssq_cwt column sums', scale=1e-9 + np.abs(want).max(), **i)
    Tx, Sx, f, Sfs, w = ssq_stft(x, dtype='float64', gamma=gamma, squeezing=sq, get_w=True,
                                 flipud=bool(k % 2))
    V = (Sx if sq == 'sum' else np.abs(Sx) if sq == 'abs' else
         np.ones(Sx.shape) / len(Sx) if sq == 'lebesgue' else Sx * Sx)
    want = mass(V, w, Sfs[1] - Sfs[0])
    close(Tx.sum(axis=0), want, 1e-7, 'ssq_stft column sums', scale=1e-9 + np.abs(want).max(), **i)

import numpy as np
from .base import case, ensure, close, same, Skip
from .gen import signal, cplx
from . import ssqref as R
from ssqueezepy import cwt, icwt, stft, ssq_cwt, ssq_stft
from ssqueezepy.ssqueezing import ssqueeze
from ssqueezepy.utils import padsignal, buffer

W64 = ('gmw', {'dtype': 'float64'})


def batch(rng, lo=50, hi=120):
    n, b = int(rng.integers(lo, hi)), int(rng.integers(1, 4))
    return np.stack([signal(rng, n) for _ in range(b)]), n, b


def mostly(a, b, what, **i):
    """equal except where a coefficient sits within rounding of a bin edge"""
    ensure(a.shape == b.shape, what + ': shapes %s, %s' % (a.shape, b.shape), **i)
    d = np.abs(a - b) > 1e-8 * max(np.abs(b).max(), 1e-300)
    ensure(d.mean() < 3e-3, what + ': %.3g of the entries differ' % d.mean(), **i)


@case(quick=12)
def transforms(rng, k):
    X, n, b = batch(rng)
    vec, deriv, l1, rp = bool(k % 2), bool(k % 3), bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
    pad = ['reflect', 'zero', None, 'symmetric', 'wrap', 'replicate'][k % 6]
    fs = float(rng.uniform(.5, 30))
    kw = dict(scales='log:maximal', nv=8, fs=fs, vectorized=vec, derivative=deriv, l1_norm=l1,
              padtype=pad, rpadded=rp)
    wav = ['morlet', ('gmw', {'dtype': 'float64'}), 'bump'][k % 3]
    wav = (wav, {'dtype': 'float64'}) if isinstance(wav, str) else wav
    i = dict(X=X, wavelet=str(wav), **kw)
    A = cwt(X, wav, **kw)
    for q in range(b):
        B = cwt(X[q], wav, **kw)
        close(A[0][q], B[0], 1e-9, 'cwt: batched and single differ', row=q, **i)
        same(A[1], B[1], 'scales')
        if deriv:
            close(A[2][q], B[2], 1e-9, 'cwt derivative: batched and single differ', row=q, **i)
    if deriv and l1:
        Y = icwt(A[0], wav, scales=A[1], x_mean=X.mean(axis=1), rpadded=rp)
        for q in range(b):
            y = icwt(A[0][q], wav, scales=A[1], x_mean=X[q].mean(), rpadded=rp)
            close(Y[q], y, 1e-9, 'icwt: batched and single differ', row=q, **i)
    hop, mod = int(rng.integers(1, 5)), bool(rng.integers(0, 2))
    kw = dict(n_fft=int(rng.integers(10, 40)), hop_len=hop, modulated=mod, fs=fs, dtype='float64',
              derivative=True, padtype=pad or 'reflect')
    A = stft(X, **kw)
    for q in range(b):
        B = stft(X[q], **kw)
        close(A[0][q], B[0], 1e-9, 'stft: batched and single differ', row=q, X=X, **kw)
        close(A[1][q], B[1], 1e-9, 'stft derivative: batched and single differ', row=q, X=X, **kw)


@case(quick=8)
def squeezed(rng, k):
    X, n, b = batch(rng)
    sq = ['sum', 'abs', 'lebesgue', lambda W: W * W][k % 4]
    kw = dict(squeezing=sq, flipud=bool(k % 2), get_dWx=True, gamma=1e-3,
              preserve_transform=[None, True, False][k % 3])
    i = dict(X=X, **{a: str(v) for a, v in kw.items()})
    sc = ['log:maximal', np.linspace(2., 20., 30)][k % 2]
    for name, run in (('ssq_cwt', lambda x: ssq_cwt(x, W64, scales=sc, nv=8, **kw)),
                      ('ssq_stft', lambda x: ssq_stft(x, n_fft=32, dtype='float64', **kw))):
        A = run(X)
        for q in range(b):
            B = run(X[q])
            for j, (u, v) in enumerate(zip(A, B)):
                u = u if np.ndim(u) == np.ndim(v) else u[q]
                (mostly if j == 0 else lambda a, b, w, **z: close(a, b, 1e-8, w, **z))(
                    u, v, '%s output %d: batched and single differ' % (name, j), row=q, **i)


@case(quick=5)
def higher_order(rng, k):
    X, n, b = batch(rng)
    order = [1, (0, 1), range(3), 2, (0, 2)][k]
    kw = dict(scales='log:maximal', nv=8, derivative=True)
    A = cwt(X, W64, order=order, **kw)
    T = ssq_cwt(X, W64, order=order, scales='log:maximal', nv=8, gamma=1e-3)
    for q in range(b):
        B = cwt(X[q], W64, order=order, **kw)
        for j in (0, 2):
            close(np.asarray(A[j])[q], np.asarray(B[j]), 1e-9, 'cwt(order=%s): batched and single differ' % (order,), X=X, row=q)
        U = ssq_cwt(X[q], W64, order=order, scales='log:maximal', nv=8, gamma=1e-3)
        close(T[1][q], U[1], 1e-8, 'ssq_cwt(order=%s) Wx: batched and single differ' % (order,), X=X, row=q)
        mostly(T[0][q], U[0], 'ssq_cwt(order=%s) Tx: batched and single differ' % (order,), X=X, row=q)


@case(quick=60)
def pieces(rng, k):
    d = R.draw(rng, ['log', 'lin'][k % 2], M=int(rng.integers(4, 8)))
    if d['n'] < 4:
        raise Skip()
    b = int(rng.integers(1, 4))
    W = np.stack([d['W'] * (q + 1) for q in range(b)])
    D = np.stack([d['D'] * (q + 1) for q in range(b)])
    w = np.stack([d['w'][rng.permutation(d['M'])] for q in range(b)])
    scales = 2. ** (1 + np.arange(d['M']) / 8)
    for ww, DD in ((w, None), (None, D)):
        kw = dict(ssq_freqs=d['v'], scales=scales, gamma=d['gamma'], flipud=bool(k % 2))
        A, fa = ssqueeze(W.copy(), ww, dWx=DD, **kw)
        for q in range(b):
            B, fb = ssqueeze(W[q].copy(), None if ww is None else ww[q], dWx=None if DD is None else DD[q], **kw)
            close(A[q], B, 1e-10, 'ssqueeze: batched and single differ', W=W, w=w, D=D, v=d['v'], row=q)
            same(fa, fb, 'frequencies')
    n = int(rng.integers(5, 40))
    X = rng.standard_normal((b, n))
    pt = ['reflect', 'zero', 'symmetric', 'wrap', 'replicate'][k % 5]
    A = padsignal(X, pt)
    for q in range(b):
        same(A[q], padsignal(X[q], pt), 'padsignal: batched and single differ', X=X, padtype=pt)
    L = int(rng.integers(2, n + 1))
    ov = int(rng.integers(0, L))
    mod, par = bool(k % 2), bool(rng.integers(0, 2))
    A = buffer(X, L, ov, mod, parallel=par)
    for q in range(b):
        same(A[q], buffer(X[q], L, ov, mod), 'buffer: batched and single differ', X=X, seg_len=L, n_overlap=ov, modulated=mod)

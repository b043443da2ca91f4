import numpy as np
from .base import case, ensure, close, same, Skip
from .gen import cplx, signal
from ssqueezepy import ssq_cwt, cwt
from ssqueezepy._ssq_cwt import phase_cwt, phase_cwt_num


def shift(W, k):
    return np.roll(W, -k, axis=-1)          # W[t + k], periodic


def stencil(W, order, dt):
    s = lambda k: shift(W, k)
    if order == 1:
        return (s(1) - W) / dt
    if order == 2:
        return (-s(2) + 4 * s(1) - 3 * W) / (2 * dt)
    return (-s(2) + 8 * s(1) - 8 * s(-1) + s(-2)) / (12 * dt)


@case(quick=200)
def stencils(rng, k):
    M, N = int(rng.integers(1, 7)), int(rng.integers(5, 60))
    W = cplx(rng, M, N)
    if k % 3 == 0:
        W = W.astype('complex64')
    dt = float(10. ** rng.uniform(-4, 3))
    order = [1, 2, 4][k % 3 if k % 2 else int(rng.integers(0, 3))]
    g = float(10. ** rng.uniform(-8, .3))
    i = dict(W=W, dt=dt, order=order, gamma=g)
    W0 = W.copy()
    w = phase_cwt_num(W, dt, order, g)
    same(W, W0, 'input modified', **i)
    ensure(w.shape == W.shape and not np.iscomplexobj(w), 'one real value per point', **i)
    small = np.abs(W) < g
    ensure(np.isinf(w[small]).all() and (w[small] > 0).all(), 'below the threshold', **i)
    ensure(np.isfinite(w[~small]).all() and (w[~small] >= 0).all(), 'above the threshold', **i)
    with np.errstate(all='ignore'):
        want = np.abs((stencil(W.astype(complex), order, dt) / W).imag / (2 * np.pi))
    t = 1e-9 if W.dtype == complex else 1e-4
    m = np.abs(W).max()
    for e, f, q in zip(w[~small], want[~small], np.abs(W[~small])):
        ensure(abs(e - f) <= t * m / q / dt, 'value differs from the stencil', got=e, want=f, **i)


@case(quick=20)
def exact(rng, k):
    """sampled polynomials in time (away from the ends): degree up to the order"""
    N = 40
    dt = float(10. ** rng.uniform(-3, 1))
    order = [1, 2, 4][k % 3]
    t = np.arange(N) * dt
    c = rng.standard_normal(order + 1) + 1j * rng.standard_normal(order + 1)
    c /= (N * dt) ** np.arange(order + 1)
    W = sum(a * t ** p for p, a in enumerate(c))[None]
    D = sum(p * a * t ** (p - 1) for p, a in enumerate(c) if p)[None]
    w = phase_cwt_num(W, dt, order, 1e-30)
    want = np.abs((D / W).imag) / 2 / np.pi
    close(w[:, 2:-2], want[:, 2:-2], 1e-7, 'not exact on polynomials', order=order, dt=dt, c=c)


@case(quick=200)
def phase_difference(rng, k):
    M, N = int(rng.integers(1, 7)), int(rng.integers(2, 60))
    W = cplx(rng, M, N, zeros=k % 2 == 0)
    dW = cplx(rng, M, N)
    g = float(10. ** rng.uniform(-6, .3))
    i = dict(W=W, gamma=g)
    W0 = W.copy()
    w = phase_cwt(W, dW, 'phase', g)
    same(W, W0, 'input modified', **i)
    ensure(w.shape == W.shape, 'one value per point', **i)
    small = np.abs(W) < g
    ensure((np.isinf(w) == small).all(), 'threshold', **i)
    # step of the unwrapped phase: principal value of the phase difference
    d = np.diff(np.angle(W), axis=-1)
    d = np.abs(d - 2 * np.pi * np.round(d / 2 / np.pi)) / 2 / np.pi
    a, b = w[:, :-1], d
    ok = ~small[:, :-1] & (np.abs(b - .5) > 1e-9)
    close(a[ok], b[ok], 1e-9, 'phase step', scale=1., **i)


@case(quick=60, budget=15)
def through_transform(rng, k):
    N = int(rng.integers(140, 300))
    x = signal(rng, N, 1)
    fs = float(rng.choice([1., 10., .5]))
    order = [1, 2, 4][k % 3]
    o = dict(wavelet=('gmw', dict(dtype='float64')), scales='log', nv=8, fs=fs, padtype='reflect')
    try:
        T, W, f, s, w = ssq_cwt(x, difftype='numeric', difforder=order, get_w=True, preserve_transform=True, **o)
    except Exception as e:
        if 'get_w' in str(e):
            raise Skip()
        raise
    i = dict(N=N, fs=fs, order=order)
    ensure(w.shape == W.shape and W.shape == (len(s), N), 'one value per point', **i)
    m = np.abs(W) > .05 * np.abs(W).max()
    m[:, :3] = m[:, -3:] = False
    want = np.abs((stencil(W.astype(complex), order, 1 / fs) / np.where(W == 0, 1, W)).imag) / 2 / np.pi
    close(w[m], want[m], 1e-6, 'phase transform of the numeric variant', **i)
    T, W, f, s, w = ssq_cwt(x, difftype='phase', get_w=True, preserve_transform=True, **o)
    ensure(w.shape == W.shape, 'one value per point (phase)', **i)

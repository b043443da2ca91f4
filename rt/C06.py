import os
import numpy as np
from .base import case, ensure, close, same, Skip
from . import ssqref as R
from .C03 import const_of, inp
from .gen import signal, cplx
from ssqueezepy import algos
from ssqueezepy.algos import (indexed_sum_onfly, ssqueeze_fast, phase_cwt_cpu, phase_stft_cpu,
                              find_closest, indexed_sum, replace_under_abs, zero_denormals)


@case(quick=100)
def squeeze(rng, k):
    d = R.draw(rng)
    d2 = R.draw(rng, 'lin', stft=True)
    flip = bool(rng.integers(0, 2))
    for e, stft in ((d, False), (d2, True)):
        c = const_of(rng, e['M'])
        log = e['kind'] != 'lin'
        Z = lambda: np.zeros((e['n'], e['N']), complex)
        i = inp(e, const=c, flipud=flip)
        A, B = [indexed_sum_onfly(e['W'], e['w'], e['v'], c, log, flip, out=Z(), parallel=p) for p in (False, True)]
        same(A, B, 'indexed_sum_onfly: parallel and sequential differ', **i)
        A, B = [ssqueeze_fast(e['W'], e['D'], e['v'], c, log, flip, e['gamma'], out=Z(), Sfs=e['Sfs'], parallel=p) for p in (False, True)]
        close(B, A, 1e-12, 'ssqueeze_fast: parallel and sequential differ', **i)
    A, B = Z(), Z()
    cc = np.broadcast_to(np.asarray(c, float), (d2['M'],)).copy()
    for fn, o in ((algos._ssq_stft, A), (algos._ssq_stft_par, B)):
        fn(d2['W'], d2['D'], d2['Sfs'], o, cc, d2['gamma'], d2['v'][0], d2['v'][1] - d2['v'][0], d2['n'] - 1, flip)
    close(B, A, 1e-12, '_ssq_stft: parallel and sequential differ', **inp(d2))


@case(quick=100)
def elementwise(rng, k):
    M, N = int(rng.integers(1, 9)), int(rng.integers(1, 40))
    dt = ['complex128', 'complex64'][k % 2]
    W, D = cplx(rng, M, N).astype(dt), cplx(rng, M, N).astype(dt)
    g = float(np.float32(10. ** rng.uniform(-3, 0)))
    W.flat[0] = g                          # exactly at the threshold
    W.flat[-1] = 1j * g
    tol = 1e-12 if k % 2 == 0 else 1e-5
    A, B = [phase_cwt_cpu(W, D, g, parallel=p) for p in (False, True)]
    close(B, A, tol, 'phase_cwt: parallel and sequential differ', W=W, D=D, gamma=g)
    S = rng.uniform(0, 3, M)
    A, B = [phase_stft_cpu(W, D, S, g, parallel=p) for p in (False, True)]
    close(B, A, tol, 'phase_stft: parallel and sequential differ', W=W, D=D, gamma=g, Sfs=S)
    kind = ['lin', 'log', 'piecewise'][k % 3]
    v, t = R.grid(rng, kind, int(rng.integers(4, 12)))
    a = R.draw_w(rng, (M, N), v, kind, t)
    A, B = [find_closest(a, v, logscale=kind != 'lin', parallel=p, smart=False) for p in (False, True)]
    same(A, B, 'find_closest: parallel and sequential differ', a=a, v=v)
    k_ = rng.integers(0, M, (M, N))
    A, B = [indexed_sum(W, k_, parallel=p) for p in (False, True)]
    same(A, B, 'indexed_sum: parallel and sequential differ', a=W, k=k_)
    A, B = np.abs(D), np.abs(D)
    for p, o in ((False, A), (True, B)):
        replace_under_abs(o, W, g, np.inf, parallel=p)
    same(A, B, 'replace_under_abs: parallel and sequential differ', W=W)
    x = rng.standard_normal(N) * 10. ** rng.choice([-320., -306, -303, 0], N)
    A, B = x.copy(), x.copy()
    zero_denormals(A, parallel=False)
    zero_denormals(B, parallel=True)
    same(A, B, 'zero_denormals: parallel and sequential differ', x=x)


@case(quick=25)
def schedules(rng, k):
    """repeated parallel runs on larger inputs: the result never depends on the schedule"""
    M, N = int(rng.integers(20, 60)), int(rng.integers(200, 900))
    v = 2. ** (np.arange(M) * .1)
    W, D = cplx(rng, M, N, zeros=False), cplx(rng, M, N, zeros=False)
    w = 2. ** rng.uniform(-1, M * .1 + 1, (M, N))
    kk = rng.integers(0, 3, (M, N))          # all of a column meet in a few rows
    s0 = indexed_sum(W, kk, parallel=False)
    import numba
    ref = None
    for nt in (1, 2, 3, 4):
        numba.set_num_threads(nt)
        A = indexed_sum_onfly(W, w, v, 1., True, parallel=True)
        B = ssqueeze_fast(W, D, v, 1., True, gamma=1e-3, parallel=True)
        if ref is None:
            ref = A, B
        same(indexed_sum(W, kk, parallel=True), s0, 'indexed_sum depends on the number of threads', threads=nt)
        same(A, ref[0], 'indexed_sum_onfly depends on the number of threads', threads=nt)
        same(B, ref[1], 'ssqueeze_fast depends on the number of threads', threads=nt)


@case(quick=60, budget=10)
def ridge_steps(rng, k):
    from .C15 import problem
    from ssqueezepy import extract_ridges
    M, N = int(rng.integers(2, 14)), int(rng.integers(2, 40))
    T = rng.standard_normal((M, N)) + 1j * rng.standard_normal((M, N))
    if k % 3 == 1:
        T = np.round(T)
    if k % 3 == 2:
        T *= rng.random((M, N)) < .5
    sc = np.sort(rng.uniform(1, 50, M)) if k % 2 else 2. ** (np.arange(M) / 8 + 1)
    o = dict(penalty=float(rng.choice([0, .5, 4, 40])), n_ridges=int(rng.integers(1, 3)), bw=int(rng.integers(1, 4)),
             get_params=True, transform='cwt' if k % 2 == 0 else 'stft')
    A, B = [extract_ridges(T.copy(), sc.copy(), parallel=p, **o) for p in (False, True)]
    for a, b in zip(A, B):
        same(b, a, 'ridges: parallel and sequential differ', T=T, scales=sc, **o)


@case(quick=40)
def wavelets(rng, k):
    """the wavelets choose the parallel kernel when created"""
    from ssqueezepy import wavelets as L
    from ssqueezepy._gmw import gmw
    o = dict(dtype='float64')
    g = dict(gamma=float(rng.uniform(1.5, 6)), beta=float(rng.uniform(1., 40)), **o)
    w = np.sort(rng.uniform(-3, 9, (1, 60)))
    w[0, :3] = 0
    old = os.environ.get('SSQ_PARALLEL')
    for make in (lambda: gmw(norm='bandpass', order=0, **g), lambda: gmw(norm='energy', order=0, **g),
                 lambda: gmw(norm='bandpass', order=2, **g), lambda: gmw(norm='energy', order=2, **g),
                 lambda: L.morlet(mu=5.5, **o), lambda: L.bump(mu=5., s=1.2, om=.1 * (k % 2), **o),
                 lambda: L.cmhat(mu=.5, s=1.5, **o), lambda: L.hhhat(mu=.5, **o)):
        try:
            os.environ['SSQ_PARALLEL'] = '0'
            A = make()(w.copy())
            os.environ['SSQ_PARALLEL'] = '1'
            B = make()(w.copy())
        finally:
            if old is None:
                os.environ.pop('SSQ_PARALLEL', None)
            else:
                os.environ['SSQ_PARALLEL'] = old
        close(B, A, 1e-11, 'wavelet: parallel and sequential differ', w=w, **g)

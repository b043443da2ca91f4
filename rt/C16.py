import numpy as np
from .base import case, ensure, close, same, Skip
from .C15 import problem, costs, total, best
from ssqueezepy import extract_ridges


@case(quick=200, budget=25)
def outputs(rng, k):
    Tf, scales, pen, tr = problem(rng, k)
    if k % 6 == 5:
        Tf = Tf.astype('complex64')
    F, T = Tf.shape
    n, bw = int(rng.integers(1, 5)), int(rng.integers(0, 9))
    par = bool(k % 2)
    inp = dict(Tf=Tf, scales=scales, penalty=pen, transform=tr, n_ridges=n, bw=bw, parallel=par)
    T0, s0 = Tf.copy(), scales.copy()
    r, f, e = extract_ridges(Tf, scales, penalty=pen, n_ridges=n, bw=bw, transform=tr,
                             get_params=True, parallel=par)
    r1 = extract_ridges(Tf, scales, penalty=pen, n_ridges=n, bw=bw, transform=tr, parallel=par)
    same(r, r1, 'ridges depend on get_params', **inp)
    same(Tf, T0, 'transform changed', **inp)
    same(scales, s0, 'scales changed', **inp)
    ensure(r.shape == f.shape == e.shape == (T, n), 'shapes', **inp)
    ensure((r >= 0).all() and (r < F).all(), 'row out of range', **inp)
    A = Tf.copy()
    d64 = Tf.dtype == np.complex128
    for i in range(n):
        E = np.abs(A)**2
        close(f[:, i], scales.ravel()[r[:, i]], 1e-14 if d64 else 1e-6, 'frequency of ridge %d' % i, **inp)
        close(e[:, i], E[r[:, i], range(T)], 1e-13 if d64 else 1e-6, 'energy of ridge %d' % i,
              scale=np.abs(Tf).max()**2 + 1e-300, **inp)
        en, P = costs(A, scales, pen, tr)
        tol = (1e-10 if d64 else 1e-4) * (np.abs(en).max(axis=0).sum() + 1)
        ensure(total(en, P, r[:, i]) <= best(en, P) + tol, 'ridge %d was not searched in what the '
               'earlier ones left' % i, ridges=r, **inp)
        for t in range(T):
            for q in range(F):
                if r[t, i] - bw <= q < r[t, i] + bw:
                    A[q, t] = 0


@case(quick=60)
def exclusive(rng, k):
    """well-separated strong components come out one by one, also at the edges"""
    F, T, bw = 40, int(rng.integers(20, 50)), 3
    rows = rng.choice([0, 39, 8, 20, 30], 3, replace=False)
    Tf = np.full((F, T), 1e-3 + 0j)
    for i, q in enumerate(rows):
        Tf[q] = 10. / (i + 1)
    scales = 2 ** np.linspace(1, 6, F)
    r, f, e = extract_ridges(Tf, scales, penalty=2., n_ridges=3, bw=bw, get_params=True, parallel=bool(k % 2))
    for i, q in enumerate(rows):
        ensure((r[:, i] == q).all(), 'component %d lies in row %d' % (i, q), got=r[:, i], rows=rows)
        close(e[:, i], np.full(T, (10. / (i + 1))**2), 1e-12, 'energy')

import numpy as np
from .base import case, ensure, close, same, Skip
from .gen import cplx
from ssqueezepy import extract_ridges


def costs(Tf, scales, penalty, transform):
    E = np.abs(np.asarray(Tf, 'complex128'))**2
    eps = np.finfo(np.float64 if Tf.dtype == np.complex128 else np.float32).eps
    mx = E.max(axis=0)
    mx[mx == 0] = 1
    s = np.log(scales) if transform == 'cwt' else scales
    s = np.asarray(s, 'float64').ravel()
    return -np.log(E / mx + eps), penalty * (s[:, None] - s[None])**2


def total(e, P, path):
    T = len(path)
    return e[path, range(T)].sum() + sum(P[path[i + 1], path[i]] for i in range(T - 1))


def best(e, P):
    D = e[:, 0]
    for t in range(1, e.shape[1]):
        D = e[:, t] + (D[None] + P).min(axis=1)
    return D.min()


def problem(rng, k):
    F, T = int(rng.integers(2, 30)), int(rng.integers(1, 60))
    if k % 10 == 9:
        F, T = int(rng.integers(2, 6)), int(rng.integers(200, 500))
    if k % 10 == 4:
        F, T = int(rng.integers(60, 300)), int(rng.integers(2, 30))
    Tf = cplx(rng, F, T)
    if k % 3 == 0:        # a meandering component
        r = np.clip(np.cumsum(rng.integers(-2, 3, T)) + F // 2, 0, F - 1)
        Tf[r, range(T)] += 5
    if k % 5 == 0:
        Tf[:, rng.integers(0, T)] = 0       # silence
    tr = ['cwt', 'stft'][k % 2]
    scales = (2 ** np.linspace(1, rng.uniform(1.5, 7), F) if tr == 'cwt' else
              np.linspace(0, .5, F) * rng.choice([1., 1., 40.]))
    if k % 7 == 3:
        scales = scales[::-1].copy()        # as frequencies of squeezed transforms come
    if k % 4 == 1:
        scales = scales.reshape(-1, 1) if tr == 'cwt' else scales
    return Tf, scales, float(rng.choice([0., 1e-4, .5, 2., 5., 40.])), tr


@case(quick=200, budget=20)
def optimal(rng, k):
    Tf, scales, pen, tr = problem(rng, k)
    if k % 4 == 3:
        Tf = Tf.astype('complex64')
    F, T = Tf.shape
    inp = dict(Tf=Tf, scales=scales, penalty=pen, transform=tr)
    T0, s0 = Tf.copy(), scales.copy()
    out = [extract_ridges(Tf, scales, penalty=pen, transform=tr, parallel=p) for p in (False, True)]
    same(out[0], out[1], 'parallel and sequential ridges', **inp)
    same(Tf, T0, 'transform changed', **inp)
    same(scales, s0, 'scales changed', **inp)
    r = out[0]
    ensure(r.shape == (T, 1) and r.dtype.kind == 'i', 'one row per time step', got=r.shape, **inp)
    r = r[:, 0]
    ensure((r >= 0).all() and (r < F).all(), 'row out of range', got=r, **inp)
    e, P = costs(Tf, scales, pen, tr)
    c, o = total(e, P, r), best(e, P)
    tol = (1e-10 if Tf.dtype == np.complex128 else 1e-4) * (np.abs(e).max(axis=0).sum() + 1)
    ensure(c <= o + tol, 'path costs %.9g, the cheapest %.9g' % (c, o), path=r, **inp)


@case(quick=60)
def enumerated(rng, k):
    """tiny problems against every path"""
    import itertools
    F, T = int(rng.integers(2, 5)), int(rng.integers(2, 6))
    Tf = cplx(rng, F, T)
    scales = np.sort(rng.uniform(1, 9, F))
    pen = float(rng.choice([0., .5, 2., 20.]))
    tr = ['cwt', 'stft'][k % 2]
    e, P = costs(Tf, scales, pen, tr)
    r = extract_ridges(Tf, scales, penalty=pen, transform=tr, parallel=bool(k % 3))[:, 0]
    o = min(total(e, P, list(p)) for p in itertools.product(range(F), repeat=T))
    ensure(total(e, P, r) <= o + 1e-9, 'path is not the cheapest', Tf=Tf, scales=scales,
           penalty=pen, transform=tr, path=r)

import numpy as np
from .base import case, ensure, close, same, Skip
from . import ssqref as R
from ssqueezepy import algos


@case(quick=300)
def uniform(rng, k):
    kind = ['lin', 'log', 'piecewise'][k % 3]
    n = int(rng.integers(4 if kind == 'piecewise' else 2, 40))
    v, t = R.grid(rng, kind, n)
    a = R.draw_w(rng, (int(rng.integers(1, 9)), int(rng.integers(1, 30))), v, kind, t)
    if k % 4 == 0:
        a.ravel()[rng.integers(0, a.size)] = np.inf
    a0 = a.copy()
    bad = R.tied(a, v, kind, t) if kind != 'piecewise' else R.tied(a, v, kind, t)
    par = bool(rng.integers(0, 2))
    q = algos.find_closest(a, v, logscale=kind != 'lin', parallel=par, smart=False)
    ensure(q.shape == a.shape and q.dtype.kind == 'i', 'shape / dtype')
    ensure((q >= 0) & (q < n), 'index out of range', a=a, v=v, parallel=par, got=q)
    b = R.bins(a, v, kind)
    ensure((q == b) | bad, 'not the nearest value', a=a, v=v, kind=kind, parallel=par, got=q, want=b)
    same(a, a0, 'input modified')


def brute(a, v):
    return np.abs(a[..., None] - v).min(axis=-1)


@case(quick=200)
def smart(rng, k):
    n = int(rng.integers(1, 30))
    v = rng.standard_normal(n) * 10. ** rng.integers(-3, 4)
    if k % 3 == 0:
        v = np.sort(v)
    elif k % 3 == 1:
        v = np.round(v, 1)
    a = rng.standard_normal((int(rng.integers(1, 8)), int(rng.integers(1, 20)))) * np.abs(v).max() * 1.3
    if k % 2:
        a.ravel()[:min(n, a.size)] = v[:min(n, a.size)]
    for fn in (algos.find_closest_smart, lambda a, v: algos.find_closest(a, v),
               algos.find_closest_brute):
        q = np.asarray(fn(a.copy(), v.copy()))
        ensure(q.shape == a.shape, 'shape')
        ensure((q >= 0) & (q < n), 'index out of range', a=a, v=v, got=q)
        same(np.abs(a - v[q]), brute(a, v), 'not the nearest value', a=a, v=v, got=q)


@case(quick=80)
def smart_log(rng, k):
    n = int(rng.integers(2, 30))
    v = np.abs(rng.standard_normal(n)) + .01
    a = np.abs(rng.standard_normal((4, 9))) * 3 + 1e-6
    q = algos.find_closest(a, v, logscale=True, smart=True)
    close(np.abs(np.log2(a) - np.log2(v)[q]), brute(np.log2(a), np.log2(v)), 1e-12, 'not the nearest in log distance', a=a, v=v)

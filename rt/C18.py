import numpy as np
from .base import case, ensure, close, same, Skip
from ssqueezepy.utils import infer_scaletype, logscale_transition_idx, nv_from_scales


def vec(rng, kind, dt='float64'):
    """(vector, nv per element or None, transition)"""
    na = int(rng.integers(3 if kind != 'log' else 2, 300))
    if kind == 'linear':
        v = rng.uniform(.5, 50) + rng.uniform(.05, 8) * np.arange(na)
        return (v[::1], None, None)
    nv = int(rng.integers(1, 80))
    top = 12. if dt == 'float64' else 9.
    lo = rng.uniform(-1, 2)
    if kind == 'log':
        na = max(2, min(na, int((top - lo) * nv)))
        return 2. ** (lo + np.arange(na) / nv), nv, None
    ds = float(rng.choice([2, 3, 4, 5, 8, .5, .25, .2]))
    t = int(rng.integers(2, max(3, na)))
    m = int(rng.integers(1, 60))
    e = np.concatenate([np.arange(t), t - 1 + ds * np.arange(1, m + 1)]) / nv
    if e[-1] > top:
        raise Skip()
    return 2. ** (lo + e), np.where(np.arange(t + m) < t, nv, nv / ds), t


@case(quick=2500, budget=20)
def double(rng, k):
    kind = ['linear', 'log', 'log-piecewise'][k % 3]
    v, nv, t = vec(rng, kind)
    i = dict(kind=kind, scales=v, length=len(v), nv=nv, transition=t)
    v0 = v.copy()
    a = v.reshape(-1, 1) if k % 2 else v
    kd, got = infer_scaletype(a)
    ensure(kd == kind, 'kind detected as %s' % kd, **i)
    if kind == 'linear':
        ensure(got is None, 'voices of uniform scales', got=got, **i)
    elif kind == 'log':
        ensure(got == nv and isinstance(got, int), 'voices', got=got, **i)
        ensure(logscale_transition_idx(v) is None, 'transition in a one-slope vector', **i)
    else:
        ensure(logscale_transition_idx(a) == t, 'transition', got=logscale_transition_idx(a), **i)
        close(np.ravel(got), nv, 1e-8, 'voices per element', **i)
        close(np.ravel(nv_from_scales(a.reshape(-1, 1))), nv, 1e-8, 'voices per element', **i)
    same(v, v0, 'argument changed')


@case(quick=600)
def rejected(rng, k):
    """vectors of none of the kinds are not passed off as one"""
    na = int(rng.integers(5, 60))
    c = k % 4
    if c == 0:
        v = np.cumsum(rng.uniform(.5, 3, na)) + 1
    elif c == 1:                                   # three slopes
        a, b, d = rng.permutation([1, 2, 4])
        v = 2. ** (np.cumsum(np.concatenate([[0], [a] * 5, [b] * 4, [d] * 4])) / 16)
    elif c == 2:
        v = (np.arange(na) + 1.)**2
    else:
        v = 2. ** (np.arange(na) / 8)
        v[int(rng.integers(1, na - 1))] *= 1.01
    try:
        r = infer_scaletype(v)
    except ValueError:
        return
    ensure(False, 'kind %s assigned' % r[0], scales=v)


@case(quick=30)
def types(rng, k):
    for v in (np.arange(1, 9), np.arange(1, 9) * (1 + 0j)):
        try:
            infer_scaletype(v)
        except TypeError:
            continue
        ensure(False, 'accepted', scales=v)

import numpy as np
from .base import case, ensure, close, same, Skip
from .gen import cplx
from ssqueezepy import algos

SEL = {'replace_at_inf_or_nan': lambda r, v: np.isinf(r) | np.isnan(r),
       'replace_at_inf': lambda r, v: np.isinf(r),
       'replace_at_nan': lambda r, v: np.isnan(r),
       'replace_at_value': lambda r, v: r == v}


def draw(rng, nd):
    shape = tuple(int(s) for s in rng.integers(1, 7, nd))
    x = np.round(rng.standard_normal(shape) * 2)
    u = rng.random(shape)
    for lo, hi, v in ((0, .15, np.inf), (.15, .3, -np.inf), (.3, .45, np.nan), (.45, .55, 0.),
                      (.55, .6, -0.)):
        x[(u >= lo) & (u < hi)] = v
    return x


@case(quick=240)
def replace_at(rng, k):
    name = list(SEL)[k % 4]
    nd = 1 + (k // 4) % 3
    x = draw(rng, nd)
    own = bool(rng.integers(0, 2))
    ref = x if own else draw(rng, nd)
    if ref.shape != x.shape:
        ref = np.resize(ref, x.shape)
    dt = [np.float64, np.float32, np.complex128][(k // 12) % 3]
    x = x.astype(dt)
    ref = x if own else ref
    kw = dict(replacement=[0., -3.5, 7., np.inf][rng.integers(0, 4)])
    v = None
    if name == 'replace_at_value':
        v = kw['value'] = [0., 1., np.inf, -np.inf, -2.][rng.integers(0, 5)]
    x0, r0 = x.copy(), ref.copy()
    y = getattr(algos, name)(x, None if own and k % 2 else ref, **kw)
    want = np.where(SEL[name](r0, v), kw['replacement'], x0)
    i = dict(fn=name, x=x0, ref=r0, **kw)
    same(y, want, 'wrong entries replaced', **i)
    same(x, want, 'not replaced in place', **i)
    if not own:
        same(ref, r0, 'reference modified', **i)


@case(quick=160)
def replace_under_abs(rng, k):
    M, N = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    ref = [cplx(rng, M, N), rng.standard_normal((M, N))][k % 2]
    if k % 5 == 0:
        ref[0, 0] = 0
    v = float(np.abs(ref[rng.integers(0, M), rng.integers(0, N)])) if k % 3 == 0 else 10. ** rng.uniform(-8, 1)
    dist = np.abs(np.abs(ref) - v)
    ref = np.where((dist > 0) & (dist < 1e-12), 2 * v + 1, ref)
    x = rng.standard_normal((M, N))
    rep = [0., np.inf, -2.5][rng.integers(0, 3)]
    x0, r0 = x.copy(), ref.copy()
    algos.replace_under_abs(x, ref, v, rep, parallel=[True, False, None][k % 3])
    hit = np.abs(r0) < v
    tie = np.abs(r0) == v
    w = np.where(hit, rep, x0)
    if np.iscomplexobj(r0):
        ok = (x == w) | (np.abs(np.abs(r0) - v) <= 1e-15 * max(v, 1e-300))
        ensure(ok, 'wrong entries replaced', x=x0, ref=r0, value=v, replacement=rep)
    else:
        same(x, w, 'wrong entries replaced', x=x0, ref=r0, value=v, replacement=rep)
    same(ref, r0, 'reference modified', ref=r0)


@case(quick=120)
def zero_denormals(rng, k):
    dt = [np.float64, np.float32][k % 2]
    tiny = 1000 * np.finfo(dt).tiny
    shape = tuple(int(s) for s in rng.integers(1, 9, 1 + (k // 2) % 2))
    x = rng.standard_normal(shape)
    e = rng.choice([1., tiny, 0.], shape)
    x = (x * e).astype(dt)
    x.ravel()[0] = [tiny, -tiny, np.nextafter(dt(tiny), dt(0)), -np.nextafter(dt(tiny), dt(0)),
                    np.inf, np.nan, 0][k % 7]
    base = x
    if k % 3 == 0:
        base = np.zeros((2 * shape[0],) + shape[1:], dt)
        base[::2] = x
        x = base[::2]
    elif k % 3 == 1 and x.ndim == 2:
        x = np.asfortranarray(x)
    x0 = x.copy()
    algos.zero_denormals(x, parallel=[True, False, None][k % 3])
    same(x, np.where((x0 < tiny) & (x0 > -tiny), 0, x0), 'wrong entries zeroed', x=x0, strides=x.strides)

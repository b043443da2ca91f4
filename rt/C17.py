import numpy as np
from .base import case, ensure, close, same, Skip
from ssqueezepy import cwt, Wavelet
from ssqueezepy.utils import make_scales, process_scales, cwt_scalebounds

_w = {}


def wavelet(k):
    name, o = [('gmw', {}), ('morlet', {}), ('bump', {}), ('gmw', dict(beta=12))][k % 4]
    if k % 4 not in _w:
        _w[k % 4] = Wavelet((name, dict(o, dtype='float64')))
    return _w[k % 4]


def check_log(sc, lo, hi, nv, /, **i):
    s = sc.ravel()
    ensure(sc.shape == (len(s), 1), 'column', **i)
    na = int(np.ceil(nv * np.log2(hi / lo)))
    ensure(len(s) == na, 'number of scales %d, want %d' % (len(s), na), **i)
    e = np.log2(s) * nv
    close(np.diff(e), np.ones(na - 1), 1e-7, 'voices per octave', **i)
    ensure(abs(e[0] - np.round(e[0])) < 1e-7 and lo * 2 ** (-1 / nv) * (1 - 1e-9) < s[0] <= lo * (1 + 1e-9),
           'first scale', first=s[0], **i)
    ensure(s[-1] < hi * (1 + 1e-9) and s[-1] > hi * 2 ** (-2.0001 / nv), 'last scale', last=s[-1], **i)


@case(quick=400)
def geometric(rng, k):
    lo = float(2 ** rng.uniform(-1, 4))
    hi = lo * float(2 ** rng.uniform(.3, 9))
    nv = int(rng.choice([1, 2, 3, 4, 8, 10, 12, 16, 24, 32, 40, 64]))
    N = int(rng.integers(16, 5000))
    sc = make_scales(N, lo, hi, nv=nv, scaletype='log')
    check_log(sc, lo, hi, nv, lo=lo, hi=hi, nv=nv)


@case(quick=200)
def uniform(rng, k):
    lo = float(2 ** rng.uniform(-1, 4))
    hi = lo * float(2 ** rng.uniform(1, 9))
    nv = int(rng.choice([2, 4, 8, 32]))
    sc = make_scales(100, lo, hi, nv=nv, scaletype='linear')
    s = sc.ravel()
    i = dict(lo=lo, hi=hi, nv=nv)
    ensure(sc.shape == (len(s), 1) and len(s) >= 2, 'column', **i)
    close(np.diff(s), np.full(len(s) - 1, (s[-1] - s[0]) / (len(s) - 1)), 1e-8, 'uniform spacing', **i)
    v = 2 ** (1.0001 / nv)
    ensure(lo / v <= s[0] <= lo * 1.000001 and hi / v <= s[-1] <= hi * v, 'range', got=(s[0], s[-1]), **i)
    ensure((s > 0).all() and (np.diff(s) > 0).all(), 'increasing', **i)


@case(quick=24, budget=12)
def piecewise(rng, k):
    w = wavelet(k)
    nv = int(rng.choice([8, 16, 32, 12]))
    ds = int(rng.choice([2, 3, 4, 5]))
    N = int(2 ** rng.uniform(7.5, 11))
    lo, hi = cwt_scalebounds(w, N=N, preset='maximal')
    full = make_scales(N, lo, hi, nv=nv, scaletype='log').ravel()
    check_log(full[:, None], lo, hi, nv, N=N, nv=nv)
    sc = make_scales(N, lo, hi, nv=nv, scaletype='log-piecewise', wavelet=w, downsample=ds)
    s = sc.ravel()
    i = dict(N=N, nv=nv, downsample=ds, wavelet=w.name, scales=s)
    ensure((np.diff(s) > 0).all() and (s > 0).all(), 'increasing', **i)
    d = np.diff(np.log2(s)) * nv
    t = int(np.argmax(d > 1.5)) if (d > 1.5).any() else len(d)
    close(d[:t], np.ones(t), 1e-7, 'first slope', scale=1., **i)
    close(d[t:], np.full(len(d) - t, float(ds)), 1e-7, 'second slope', scale=1., **i)
    same(s[:t + 1], full[:t + 1], 'starts as the full vector', **i)
    ensure(s[-1] <= full[-1] * (1 + 1e-12), 'ends within range', **i)
    if len(d) > t:
        ensure(full[-1] / s[-1] < 2 ** (ds / nv), 'reaches the end', **i)


@case(quick=12, budget=12)
def short(rng, k):
    """two-slope vectors of few scales"""
    w = wavelet(k)
    nv, n = int(rng.integers(1, 5)), int(rng.integers(1, 12))
    lo = float(2 ** rng.uniform(0, 2))
    hi = lo * 2 ** ((n - .5) / nv)
    i = dict(nv=nv, lo=lo, hi=hi, wavelet=w.name)
    full = make_scales(256, lo, hi, nv=nv, scaletype='log').ravel()
    try:
        s = make_scales(256, lo, hi, nv=nv, scaletype='log-piecewise', wavelet=w).ravel()
    except Exception as e:
        ensure(False, 'failed: %r' % e, **i)
    ensure(len(full) == n and (np.diff(s) > 0).all() and np.isin(s, full).all(), 'part of the full vector', got=s, **i)


@case(quick=40, budget=15)
def presets(rng, k):
    w = wavelet(k)
    N = int(2 ** rng.uniform(7.5, 11))
    nv = int(rng.choice([8, 16, 32]))
    pre = ['maximal', 'minimal', 'naive'][k % 3]
    kind = ['log', 'linear'][k // 3 % 2]
    i = dict(N=N, nv=nv, preset=pre, kind=kind, wavelet=w.name)
    lo, hi = cwt_scalebounds(w, N=N, preset=pre)
    ensure(0 < lo < hi, 'bounds', got=(lo, hi), **i)
    if pre == 'naive':
        ensure((lo, hi) == (1, N), 'naive bounds', got=(lo, hi), **i)
    sc, kd, na, nv_ = process_scales(kind + ':' + pre, N, w, nv=nv, get_params=True)
    ensure(kd == kind and na == len(sc), 'parameters', got=(kd, na, nv_), **i)
    if kind == 'log':
        ensure(nv_ == nv, 'voices', **i)
        check_log(sc, lo, hi, nv, **i)
    ensure((np.diff(sc.ravel()) > 0).all(), 'increasing', **i)


@case(quick=200)
def given(rng, k):
    na = int(rng.integers(3, 60))
    nv = int(rng.choice([1, 4, 8, 10, 16, 32]))
    kind = k % 3
    if kind == 0:
        sc = 2. ** ((int(rng.integers(0, 60)) + np.arange(na)) / nv)
        if sc[-1] > 1e5:
            raise Skip()
    elif kind == 1:
        sc = rng.uniform(1, 5) + rng.uniform(.1, 3) * np.arange(na)
    else:
        t = int(rng.integers(2, na)) if na > 3 else 2
        sc = 2. ** np.concatenate([np.arange(t) / nv, (t - 1) / nv + 2 * np.arange(1, na - t + 1) / nv])
        if na - t < 1 or sc[-1] > 1e5:
            raise Skip()
    s0 = sc.copy()
    shape = (-1, 1) if k % 2 else (-1,)
    r, kd, n_, nv_ = process_scales(sc.reshape(shape), 100, get_params=True)
    i = dict(scales=sc)
    same(r.ravel(), s0, 'scales are not used as given', **i)
    ensure(r.shape == (na, 1) and n_ == na, 'column', **i)
    ensure(kd == ['log', 'linear', 'log-piecewise'][kind], 'kind', got=kd, **i)
    if kind == 0:
        ensure(nv_ == nv, 'voices', got=nv_, nv=nv, **i)
        try:
            process_scales(sc, 100, nv=nv + 1)
        except Exception:
            pass
        else:
            ensure(False, 'contradicting nv accepted', nv=nv + 1, **i)
    bad = [np.ones((3, 3)) * np.arange(1, 10).reshape(3, 3), [1., 2., 3.], 'logg', 'log:max', 5,
           np.array([1., 2., 3.7, 9., 9.5, 30.]), np.cumsum(rng.uniform(.5, 4, 9)) + 1, np.arange(1, 9)]
    for j, b in enumerate(bad):
        try:
            process_scales(b, 100, wavelet(0))
        except Exception:
            continue
        ensure(False, 'bad scales accepted', scales=b)
    for nvb in (0, -3, 2.5):
        try:
            process_scales('log:naive', 100, wavelet(0), nv=nvb)
        except ValueError:
            continue
        ensure(False, 'bad nv accepted', nv=nvb)

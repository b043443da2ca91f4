import numpy as np
from .base import case, ensure, close, same, Skip
from ssqueezepy import TestSignals


def grid(rng):
    tmin = float(rng.choice([0, 0, .5, -1, rng.uniform(-2, 2)]))
    tmax = float(rng.choice([tmin + 1, tmin + rng.uniform(.3, 3)]))
    if rng.random() < .15:
        tmin, tmax = tmin - tmax, 0.
    return tmin, tmax


def law(kind, tmin, tmax, f0, f1):
    """(f(t), integral of f from tmin to t)"""
    T = tmax - tmin
    if kind == 'lchirp':
        a = (f1 - f0) / T
        return lambda t: f0 + a * (t - tmin), lambda t: f0 * (t - tmin) + a / 2 * (t - tmin) ** 2
    if kind == 'echirp':
        r = np.log(f1 / f0) / T
        return lambda t: f0 * np.exp(r * (t - tmin)), lambda t: f0 * np.expm1(r * (t - tmin)) / r
    if kind == 'echirp_pc':
        A = (f1 - f0) / (np.exp(tmax) - np.exp(tmin))
        return (lambda t: f0 + A * (np.exp(t) - np.exp(tmin)),
                lambda t: f0 * (t - tmin) + A * (np.exp(t) - np.exp(tmin) - np.exp(tmin) * (t - tmin)))
    # A/(B-t)^2 through both end points, B beyond the higher frequency end
    q = np.sqrt(f1 / f0)
    B = (q * tmax - tmin) / (q - 1)
    A = f0 * (B - tmin) ** 2
    return lambda t: A / (B - t) ** 2, lambda t: A / (B - t) - A / (B - tmin)


@case(quick=400, budget=12)
def chirps(rng, k):
    kind = ['lchirp', 'echirp', 'hchirp', 'echirp_pc'][k % 4]
    tmin, tmax = grid(rng)
    T = tmax - tmin
    N = int(rng.integers(16, 1200))
    top = N / 2 / T
    f0, f1 = float(rng.uniform(.02, .4) * top), float(rng.uniform(.5, 1) * top)
    if kind in ('lchirp', 'echirp_pc') and k % 3 == 0:
        f0 = 0.
    if kind != 'hchirp' and k % 5 == 0 and f0 > 0:
        f0, f1 = f1, f0
    end = bool(k // 4 % 2)
    i = dict(kind=kind, N=N, tmin=tmin, tmax=tmax, fmin=f0, fmax=f1, endpoint=end)
    ts = TestSignals(warn_alias=False)
    x, t = getattr(ts, kind)(N, fmin=f0, fmax=f1, tmin=tmin, tmax=tmax, endpoint=end)
    f, phi = law(kind, tmin, tmax, f0, f1)
    close(t, tmin + T * np.arange(N) / (N - 1 if end else N), 1e-12, 'time grid', scale=1., **i)
    close(x, np.cos(2 * np.pi * phi(t)), 1e-6, 'signal is not the cosine of the integral of its law', scale=1., **i)
    fn = getattr(ts, '_%s_fn' % kind, None)
    if fn is not None:
        try:
            P, W = fn(t, tmin, tmax, f0, f1, get_w=True)
        except TypeError:
            return
        close(W, 2 * np.pi * f(t), 1e-7, 'reported frequency law', **i)
        close(np.cos(P), x, 1e-6, 'reported phase', scale=1., **i)


@case(quick=120, budget=10)
def automatic_length(rng, k):
    kind = ['lchirp', 'echirp', 'hchirp', 'echirp_pc'][k % 4]
    tmin, tmax = grid(rng)
    T = tmax - tmin
    f0 = float(rng.uniform(1, 20))
    f1 = f0 * float(rng.uniform(1.5, 12))
    i = dict(kind=kind, tmin=tmin, tmax=tmax, fmin=f0, fmax=f1)
    x, t = getattr(TestSignals(warn_alias=True), kind)(fmin=f0, fmax=f1, tmin=tmin, tmax=tmax, endpoint=True)
    ensure(x.shape == t.shape, 'lengths', **i)
    dt = T / (len(t) - 1)
    close(t, tmin + dt * np.arange(len(t)), 1e-12, 'time grid', scale=1., **i)
    ensure(f1 * dt <= .5 * (1 + 1e-6), 'aliases', step=dt, **i)
    ensure(f1 * T / max(len(t) - 2, 1) > .5 * (1 - 1e-3), 'longer than needed', N=len(t), **i)
    x2, t2 = getattr(TestSignals(), kind)(len(t), fmin=f0, fmax=f1, tmin=tmin, tmax=tmax, endpoint=True)
    same(x, x2, 'automatic length changes the signal', **i)
    ts = TestSignals(N=77)
    x3, t3 = getattr(ts, kind)(fmin=2, tmin=tmin, tmax=tmax)
    ensure(len(x3) == len(t3) == 77, 'default length', **i)
    x4, _ = getattr(ts, kind)(77, fmin=2, fmax=38, tmin=tmin, tmax=tmax)
    same(x3, x4, 'default highest frequency', **i)


@case(quick=100)
def sinusoids(rng, k):
    tmin, tmax = grid(rng)
    N = int(rng.integers(4, 600))
    f, p = float(rng.uniform(0, N / 4)), float(rng.uniform(-4, 4))
    ts = TestSignals(warn_alias=False)
    for end in (None, True, False):
        kw = {} if end is None else dict(endpoint=end)
        t = tmin + (tmax - tmin) * np.arange(N) / (N - 1 if end else N)
        i = dict(N=N, f=f, phi0=p, tmin=tmin, tmax=tmax, endpoint=end)
        for name, fn in (('sine', np.sin), ('cosine', np.cos)):
            x, t_ = getattr(ts, name)(N, f=f, phi0=p, tmin=tmin, tmax=tmax, **kw)
            close(t_, t, 1e-12, name + ' time grid', scale=1., **i)
            close(x, fn(2 * np.pi * f * t + p), 1e-9, name, scale=1., **i)
            a, b = float(rng.uniform(0, .5)), float(rng.uniform(.6, 2))
            A, t_ = getattr(ts, 'am_' + name)(N, f=f, amin=a, amax=b, phi=p, tmin=tmin, tmax=tmax, **kw)
            close(A, a + (b - a) * (fn(2 * np.pi * f * t + p) + 1) / 2, 1e-9, 'am_' + name, scale=1., **i)
    A, t_ = ts.am_exp(N, amin=.2, amax=3., tmin=tmin, tmax=tmax, endpoint=True)
    close(A, .2 * 15 ** ((t_ - tmin) / (tmax - tmin)), 1e-9, 'am_exp', **i)
    A, t_ = ts.am_gauss(N, amin=.2, amax=1.5)
    ensure(A.shape == (N,) and (A >= .2 - 1e-12).all() and (A <= 1.5 + 1e-12).all(), 'am_gauss range', **i)
    close(A, A[::-1], 1e-9, 'am_gauss symmetry', **i)


@case(quick=100)
def compound(rng, k):
    ts = TestSignals(warn_alias=False)
    N = int(rng.integers(64, 700))
    kind = ['lchirp', 'echirp', 'hchirp'][k % 3]
    f = [float(v) for v in rng.uniform(1, N / 8, 2)] + [float(v) for v in rng.uniform(N / 4, N / 2, 2)]
    one, par = getattr(ts, kind), getattr(ts, 'par_' + kind)
    kw = dict(zip(('fmin1', 'fmin2', 'fmax1', 'fmax2'), f))
    x, t = par(N, **kw)
    want = one(N, f[0], f[2])[0] + one(N, f[1], f[3])[0]
    close(x, want, 1e-9, 'parallel chirps', scale=1., kind=kind, N=N, **kw)
    d = N / 10
    lo = dict(lchirp=0, echirp=1, hchirp=1)[kind]
    r = dict(echirp=1.5, hchirp=3).get(kind)
    up = (lambda v: v + d) if r is None else (lambda v: v * r)
    dn = (lambda v: v - d) if r is None else (lambda v: v / r)
    for g in range(16):
        sub = {n: v for b, (n, v) in enumerate(kw.items()) if g >> b & 1}
        a = sub.get('fmin1', lo)
        b = sub.get('fmin2', up(a))
        h2 = sub.get('fmax2', N / 2 if 'fmax1' not in sub else min(N / 2, up(sub['fmax1'])))
        h1 = sub.get('fmax1', dn(h2))
        if min(h1, h2, h1 - a, h2 - b) < 1:
            continue
        close(par(N, **sub)[0], one(N, a, h1)[0] + one(N, b, h2)[0], 1e-9, 'parallel chirps, bounds given: %s' % sorted(sub),
              scale=1., kind=kind, N=N, **sub)
    fr = [float(v) for v in rng.uniform(1, N / 8, int(rng.integers(1, 6)))]
    x, t = ts.jumps(N, freqs=fr)
    M = N // len(fr)
    ensure(x.shape == t.shape == (M * len(fr),), 'jumps length', N=N, freqs=fr)
    for q, v in enumerate(fr):
        u = slice(q * M, (q + 1) * M)
        close(x[u], np.cos(2 * np.pi * v * t[u]), 1e-9, 'jumps', scale=1., N=N, freqs=fr)
    ov = float(rng.uniform(.3, 1))
    x, t = ts.packed(N, freqs=fr, overlap=ov)
    n = int(ov * N)
    want = np.zeros(N)
    for q, v in enumerate(fr):
        u = slice(0, n) if q % 2 == 0 else slice(N - n, N)
        want[u] += np.cos(2 * np.pi * v * t[u])
    close(x, want, 1e-9, 'packed', scale=1., N=N, freqs=fr, overlap=ov)


@case(quick=60)
def by_name(rng, k):
    """make_signals: carrier times modulation, reflection, noise"""
    N = int(rng.integers(32, 400))
    f0, f1 = float(rng.uniform(1, 5)), float(rng.uniform(10, N / 2.1))
    ts = TestSignals(N=N, warn_alias=False, seed=int(rng.integers(0, 3)), snr=None)
    kw = dict(fmin=f0, fmax=f1)
    x = ts.lchirp(N, **kw)[0]
    got = ts.make_signals([('lchirp', dict(kw))], N)
    close(got, x, 1e-12, 'by name', scale=1., N=N, **kw)
    got = ts.make_signals([('#lchirp', dict(kw))], N)
    close(got, x + x[::-1], 1e-12, 'reflected', scale=1., N=N, **kw)
    af = float(rng.uniform(1, 6))
    A = ts.am_cosine(N, f=af, amin=.3)[0]
    got = ts.make_signals([('lchirp:am-cosine', (dict(kw, endpoint=False), dict(f=af, amin=.3)))], N)
    close(got, ts.lchirp(N, endpoint=False, **kw)[0] * A, 1e-9, 'modulated', scale=1., N=N, f=af, **kw)
    T = dict(tmin=0., tmax=float(rng.uniform(.5, 2)))
    try:
        got = ts.make_signals([('lchirp:am-cosine', (dict(kw, **T, endpoint=False), dict(f=af, amin=.3, **T)))], N)
    except Exception as e:
        ensure(False, 'failed: %r' % e, N=N, f=af, **kw, **T)
    close(got, ts.lchirp(N, endpoint=False, **kw, **T)[0] * ts.am_cosine(N, f=af, amin=.3, **T)[0], 1e-9,
          'modulated', scale=1., N=N, f=af, **kw, **T)
    snr = float(rng.choice([-3, 0, 10]))
    y = ts.make_signals([('lchirp', dict(kw, snr=snr))], N)
    z = ts.make_signals([('lchirp', dict(kw, snr=snr))], N)
    same(y, z, 'seeded noise is not reproducible', seed=ts.seed, snr=snr)
    r = 10 * np.log10(x.var() / (y - x).var())
    ensure(abs(r - snr) < 40 / np.sqrt(N) + .5, 'signal-to-noise ratio', got=r, want=snr, N=N)

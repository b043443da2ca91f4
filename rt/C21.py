import numpy as np
from math import pi
from scipy.special import gammaln, eval_genlaguerre
from .base import case, ensure, close, same, Skip
from ssqueezepy import Wavelet
from ssqueezepy import wavelets as L
from ssqueezepy import _gmw as G


def lin(beta, w, gamma):
    """beta*ln(w) - w**gamma with the limit at zero"""
    with np.errstate(divide='ignore'):
        return beta * np.log(w) - w ** gamma


def f_gmw(w, gamma, beta, norm, order, centered):
    wc = (beta / gamma) ** (1 / gamma)
    if centered:
        w = w * wc
    r, k = (2 * beta + 1) / gamma, order
    out = np.zeros(w.shape)
    p = w >= 0
    v = w[p]
    if norm == 'bandpass':
        lc = np.log(2) + wc ** gamma - beta * np.log(wc) + .5 * (gammaln(r) + gammaln(k + 1) - gammaln(k + r))
    else:
        lc = .5 * (np.log(2 * pi * gamma) + r * np.log(2) + gammaln(k + 1) - gammaln(k + r))
    with np.errstate(invalid='ignore', over='ignore'):
        e = np.exp(lc + lin(beta, v, gamma))
        out[p] = np.where(e == 0, 0, e * (eval_genlaguerre(k, r - 1, 2 * v ** gamma) if k else 1))
    return out


def f_morlet(w, mu):
    ks = np.exp(-.5 * mu**2)
    cs = (1 + np.exp(-mu**2) - 2 * np.exp(-.75 * mu**2)) ** -.5
    return np.sqrt(2) * cs * pi ** .25 * (np.exp(-.5 * (mu - w) ** 2) - ks * np.exp(-.5 * w**2))


def f_bump(w, mu, s, om):
    v = (w - mu) / s
    on = np.abs(v) < .999
    out = np.zeros(w.shape, complex)
    out[on] = np.exp(2j * pi * om * w[on]) / s * np.exp(-1 / (1 - v[on] ** 2)) / .443993816053287
    return out, np.abs(np.abs(v) - .999) < 1e-9


def f_cmhat(w, mu, s):
    v = w - mu
    return np.where(v >= 0, 2 * np.sqrt(2 / 3) * pi ** -.25 * s ** 2.5 * v**2 * np.exp(-s**2 * v**2 / 2), 0)


def f_hhhat(w, mu):
    v = w - mu
    return 2 / np.sqrt(5) * pi ** -.25 * v * (1 + v) * np.exp(-.5 * v**2) * (1 + np.sign(v))


def draw(rng, k):
    """(wavelet specification, formula, tolerance)"""
    kind = k % 8
    if kind < 4:
        g, b = float(rng.choice([1., 2., 3., 4.5, rng.uniform(1, 7)])), float(rng.choice([1., 3., 12., 60., rng.uniform(.7, 70)]))
        o = dict(gamma=g, beta=b, norm=['bandpass', 'energy'][kind % 2], order=[0, 0, 1, 2, 3][int(rng.integers(0, 5))] if kind > 1 else 0,
                 centered_scale=bool(rng.integers(0, 2)))
        return ('gmw', o), lambda w: f_gmw(w, g, b, o['norm'], o['order'], o['centered_scale'])
    if kind < 6:
        mu = float(rng.choice([5., 6., 13.4, rng.uniform(4, 20)]))
        return ('morlet', dict(mu=mu)), lambda w: f_morlet(w, mu)
    if kind == 6:
        mu, s, om = float(rng.uniform(3, 8)), float(rng.uniform(.4, 2)), float(rng.choice([0, 0, rng.uniform(0, 1)]))
        return ('bump', dict(mu=mu, s=s, om=om)), lambda w: f_bump(w, mu, s, om)[0]
    mu, s = float(rng.uniform(0, 3)), float(rng.uniform(.5, 2))
    if k % 16 < 8:
        return ('cmhat', dict(mu=mu, s=s)), lambda w: f_cmhat(w, mu, s)
    return ('hhhat', dict(mu=mu)), lambda w: f_hhhat(w, mu)


def frequencies(rng, n=200):
    w = np.concatenate([rng.uniform(-4, 14, n // 2), 10. ** rng.uniform(-6, 7, n // 4), -10. ** rng.uniform(-6, 6, n // 8),
                        [0., -0., pi, 1.]])
    return w


@case(quick=200, budget=15)
def formulas(rng, k):
    (name, o), f = draw(rng, k)
    wt = Wavelet((name, dict(o, dtype='float64')))
    w = frequencies(rng)
    i = dict(wavelet=name, **o)
    if name == 'bump':
        w = w[~f_bump(w, o['mu'], o['s'], o['om'])[1]]
    elif name == 'hhhat':
        w = w[w != o['mu']]
    want = f(w)
    w0 = w.copy()
    got = np.asarray(wt(w))
    same(w, w0, 'frequencies modified', **i)
    tol = 3e-9 if name == 'gmw' else 1e-10
    if name == 'bump' and o['om']:
        want = np.where(np.abs(w) > 100, got, want)      # phase rounding
    close(got, want, tol, 'value differs from the formula', scale=max(np.abs(want).max(), 1e-9), w=w, **i)
    ensure(np.isfinite(got).all(), 'non-finite value', w=w[~np.isfinite(got)], **i)
    if not (name == 'bump' and o['om']):
        ensure(not np.iscomplexobj(got) or (got.imag == 0).all(), 'not real', **i)
    if name == 'gmw':
        ensure((got[w <= 0] == 0).all(), 'not analytic', w=w[w <= 0], **i)
    if name == 'morlet':
        ensure(np.abs(got[w <= 0]).max() < 10 * np.exp(-.5 * o['mu'] ** 2) + 1e-12, 'negative frequencies', **i)
        ensure(np.abs(wt(np.zeros(1))).max() < 1e-12, 'mean is not zero', **i)
    # evaluation with a scale
    N = int(rng.integers(8, 200))
    sc = rng.uniform(.5, 90, int(rng.integers(2, 6)))
    xi = np.arange(N)
    xi = np.where(xi <= N // 2, xi, xi - N) * 2 * pi / N
    for a in (sc, sc[:, None]):
        got = np.asarray(wt(scale=a, N=N))
        close(got, np.asarray(wt(sc[:, None] * xi)), 1e-12, 'wavelet(scale=) is not wavelet(scale*xi)', scale=2., N=N, scales=sc, **i)
    half = np.asarray(wt(scale=sc, N=N, nohalf=False))
    want = np.asarray(wt(scale=sc, N=N)).copy()
    if N % 2 == 0:
        want[:, N // 2] /= 2
    close(half, want, 1e-12, 'halved Nyquist bin', N=N, scales=sc, **i)
    psi = np.asarray(wt.psifn(scale=sc, N=N))
    close(psi, np.fft.ifft(want * (-1.) ** np.arange(N), axis=-1), 1e-10, 'time-domain wavelet', scale=max(np.abs(want).max(), 1e-9), N=N, scales=sc, **i)
    if k % 4 == 0 and not (name == 'gmw' and o['norm'] == 'energy'):
        w32 = Wavelet((name, dict(o, dtype='float32')))
        v = rng.uniform(-4, 14, 80)
        v = v[np.abs(v - o.get('mu', -9)) > 1e-3]
        if name == 'bump':
            v = v[np.abs(np.abs((v - o['mu']) / o['s']) - .999) > 1e-3]
        if not (name == 'gmw' and (o['order'] > 0 or o['beta'] > 20)):
            r = np.asarray(w32(v.astype('float32')))
            ensure(str(r.dtype) in ('float32', 'complex64'), 'precision', got=r.dtype, **i)
            want = f(v.astype('float32').astype(float))
            close(r, want, 2e-4, 'single precision value', scale=max(np.abs(want).max(), 1.), w=v, **i)


@case(quick=60, budget=8)
def gmw_peak(rng, k):
    g, b = float(rng.uniform(1, 6)), float(rng.uniform(.7, 70))
    wc = (b / g) ** (1 / g)
    close(G.morsefreq(g, b), wc, 1e-12, 'centre frequency', gamma=g, beta=b)
    cs = bool(k % 2)
    wt = Wavelet(('gmw', dict(gamma=g, beta=b, norm='bandpass', centered_scale=cs, dtype='float64')))
    pk = 1. if cs else wc
    close(np.asarray(wt(np.array([pk]))), [2.], 1e-9, 'peak value', gamma=g, beta=b, centered=cs)
    v = np.concatenate([rng.uniform(0, 3, 200) * pk, pk * (1 + rng.uniform(-.01, .01, 50))])
    ensure(np.asarray(wt(v)).max() <= 2 * (1 + 1e-10), 'peak exceeded', gamma=g, beta=b, centered=cs)
    # unit energy of the energy-normalized ones, orthogonality of the orders
    wt = [Wavelet(('gmw', dict(gamma=g, beta=b, norm='energy', order=m, dtype='float64'))) for m in range(3)]
    if b > 1.5 and g > 1.3:
        top = wc * 6 + 40 if g < 2 else wc * 4 + 6
        u = np.linspace(0, top, 60001)
        P = [np.asarray(w_(u)) for w_ in wt]
        Gm = np.array([[np.trapezoid(a * c, u) for a in P] for c in P]) / (2 * pi)
        close(Gm, np.eye(3), 2e-3, 'orders are not orthonormal', gamma=g, beta=b)


@case(quick=40, budget=8)
def gmw_arrays(rng, k):
    g, b = float(rng.uniform(1.2, 5)), float(rng.uniform(1, 30))
    wc = (b / g) ** (1 / g)
    N = int(rng.integers(16, 300))
    s = float(rng.uniform(1, 30))
    norm = ['bandpass', 'energy'][k % 2]
    order = k // 2 % 3
    cs = bool(k // 6 % 2)
    i = dict(gamma=g, beta=b, N=N, at=s, norm=norm, order=order, centered=cs)
    X, x = G.compute_gmw(N, s, g, b, time=True, norm=norm, order=order, centered_scale=cs, dtype='float64')
    f = np.arange(N)
    xi = np.where(f <= N // 2, f, f - N) * 2 * pi / N
    want = f_gmw(s * xi, g, b, norm, order, cs)
    if norm == 'energy':
        want = want * np.sqrt(s * (wc if cs else 1))
    close(X, want, 1e-9, 'compute_gmw', scale=max(np.abs(want).max(), 1e-9), **i)
    h = want.copy()
    if N % 2 == 0:
        h[N // 2] /= 2
    close(x, np.fft.ifft(h * (-1.) ** f), 1e-9, 'compute_gmw time-domain', scale=max(np.abs(h).max(), 1e-9), **i)
    fr = float(rng.uniform(.1, 2.5))
    K = 1 + order
    psif, psi = G.morsewave(N, fr, g, b, K=K, norm=norm)
    psif = psif.reshape(N, K)
    v = 2 * pi * f / N * wc / fr
    for m in range(K):
        want = f_gmw(v, g, b, norm, m, False)
        want[N // 2 + 1:] = 0
        if norm == 'energy':
            want = want * np.sqrt(wc / fr)
        close(psif[:, m], want, 1e-8, 'morsewave', scale=max(np.abs(want).max(), 1e-9), freq=fr, m=m, **i)


@case(quick=60, budget=5)
def gmw_moments(rng, k):
    g, b = float(rng.uniform(1.2, 5)), float(rng.uniform(1, 30))
    i = dict(gamma=g, beta=b)
    wm, we, wi, cwi = G.morsefreq(g, b, n_out=4)
    close(wm, (b / g) ** (1 / g), 1e-12, 'peak frequency', **i)
    close(we, np.exp(gammaln((2 * b + 2) / g) - gammaln((2 * b + 1) / g)) / 2 ** (1 / g), 1e-9, 'energy frequency', **i)
    close(wi, np.exp(gammaln((b + 2) / g) - gammaln((b + 1) / g)), 1e-9, 'instantaneous frequency', **i)
    for bad in (dict(gamma=0.), dict(gamma=-2.), dict(beta=-1.), dict(norm='l7'), dict(order=-1)):
        try:
            G.gmw(**dict(dict(gamma=g, beta=b), **bad))
        except Exception:
            continue
        ensure(False, 'bad parameters accepted', **bad)


@case(quick=40, budget=15)
def moments(rng, k):
    """the reported centre and widths are the moments of the sampled wavelet"""
    (name, o), f = draw(rng, [0, 4, 1, 5, 6][k % 5])
    if name == 'gmw':
        o = dict(o, order=0, centered_scale=False)
        o['beta'] = max(o['beta'], 3.)
    if name == 'bump':
        o = dict(o, om=0.)
    wt = Wavelet((name, dict(o, dtype='float64')))
    N = int(rng.integers(200, 1500))
    pk = wt.wc_ct
    s = float(pk / rng.uniform(.3, 1.6))
    i = dict(wavelet=name, N=N, at=s, **o)
    w = np.sort(np.where(np.arange(N) <= N // 2, np.arange(N), np.arange(N) - N)) * 2 * pi / N
    p2 = np.abs(np.asarray(wt(s * w))) ** 2
    u = np.linspace(max(pk - 3, 1e-3), pk + 3, 40001)
    q = np.abs(np.asarray(wt(u)))
    ensure(np.abs(np.asarray(wt(np.array([pk])))).max() >= q.max() * (1 - 1e-4), 'wc_ct does not maximize the wavelet', got=pk, want=u[q.argmax()], **i)
    close(L.center_frequency(wt, s, N, kind='peak'), w[p2.argmax()], 1e-9, 'peak centre', **i)
    wc = np.trapezoid(w * p2) / np.trapezoid(p2)
    close(L.center_frequency(wt, s, N, kind='energy'), wc, 1e-9, 'energy centre', **i)
    sw = np.sqrt(np.trapezoid((w - wc) ** 2 * p2) / np.trapezoid(p2))
    close(L.freq_resolution(wt, s, N, nondim=False), sw, 1e-8, 'frequency width', **i)
    close(L.freq_resolution(wt, s, N, nondim=True), sw / w[p2.argmax()], 1e-8, 'relative frequency width', **i)
    Nt = 2 * N
    xi = np.where(np.arange(Nt) <= N, np.arange(Nt), np.arange(Nt) - Nt) * 2 * pi / Nt
    h = np.asarray(wt(s * xi)).copy()
    h[N] /= 2
    a = np.abs(np.fft.ifft(h * (-1.) ** np.arange(Nt))) ** 2
    t = np.arange(Nt) - N
    st = np.sqrt(np.sum(t**2 * a) / np.sum(a))
    try:
        got = L.time_resolution(wt, s, N, nondim=False)
    except Exception as e:
        raise Skip() if 'decay' in str(e) else e
    close(got, st, 1e-3, 'time width', **i)

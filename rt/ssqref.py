"""reference synchrosqueezing (direct from the definition) and matching generators"""
import numpy as np


def grid(rng, kind, n):
    """ascending frequencies: linear, logarithmic, or two-slope logarithmic"""
    v0 = rng.uniform(.01, 3)
    if kind == 'lin':
        return v0 + rng.uniform(.01, .5) * np.arange(n), None
    if kind == 'log':
        return v0 * 2 ** (rng.uniform(.05, .5) * np.arange(n)), None
    t = int(rng.integers(1, n - 1))
    d0, d1 = rng.uniform(.1, .5), rng.uniform(.02, .09)
    if rng.random() < .5:
        d0, d1 = d1, d0
    lo = np.log2(v0) + d0 * np.arange(t + 1)
    hi = lo[-1] + d1 * np.arange(1, n - t)
    return 2 ** np.hstack([lo, hi]), t


def pos(w, v, kind, t):
    """position of w on the grid, in bins"""
    if kind == 'lin':
        return (w - v[0]) / (v[1] - v[0])
    with np.errstate(divide='ignore'):
        w, v = np.log2(w), np.log2(v)
    if kind == 'log':
        return (w - v[0]) / (v[1] - v[0])
    return np.where(w > v[t], (w - v[t]) / (v[t + 1] - v[t]) + t, (w - v[0]) / (v[1] - v[0]))


def draw_w(rng, shape, v, kind, t):
    """frequencies whose bin is not a rounding tie; some beyond the grid, some exactly on
    its points, some zero, some huge"""
    n = len(v)
    p = rng.uniform(-2, n + 1, shape)
    p = np.where(rng.random(shape) < .3, np.round(p), p)
    fr = p - np.floor(p)
    p = np.where(np.abs(fr - .5) < .02, p + .06, p)
    near = np.floor(p) + .5 + rng.choice([-2e-4, 2e-4], shape)      # but some close to one
    p = np.where(rng.random(shape) < .08, near, p)
    if kind == 'lin':
        w = v[0] + p * (v[1] - v[0])
        w = np.abs(w)
    else:
        l = np.log2(v)
        if kind == 'log':
            w = 2 ** (l[0] + p * (l[1] - l[0]))
        else:
            w = 2 ** np.where(p > t, l[t] + (p - t) * (l[t + 1] - l[t]),
                              l[0] + p * (l[1] - l[0]))
    w = np.where(rng.random(shape) < .04, 0., w)
    w = np.where(rng.random(shape) < .04, 10. ** rng.integers(3, 25), w)
    return w


def tied(w, v, kind, t, tol=1e-6):
    with np.errstate(invalid='ignore'):
        p = pos(w, v, kind, t)
        return np.isfinite(p) & (np.abs(p - np.floor(p) - .5) < tol) & (p > -1) & (p < len(v) + 1)


def bins(w, v, kind):
    """nearest grid frequency (in log distance for logarithmic grids) by exhaustive
    search; frequencies outside the grid go to the end rows"""
    if kind == 'lin':
        w, g = np.minimum(w, v[-1] + 1), v
    else:
        with np.errstate(divide='ignore'):
            w, g = np.log2(w), np.log2(v)
        w = np.clip(w, g[0] - 1, g[-1] + 1)
    return np.argmin(np.abs(w[..., None] - g), axis=-1)


def squeeze(W, w, v, kind, const, flip, out=None):
    n = len(v)
    T = np.zeros((n, W.shape[1]), 'complex128') if out is None else out.astype('complex128').copy()
    const = np.broadcast_to(np.asarray(const).reshape(-1), (len(W),))
    fin = np.isfinite(w)
    k = bins(np.where(fin, w, 1.), v, kind)
    if flip:
        k = n - 1 - k
    for i in range(W.shape[0]):
        for j in range(W.shape[1]):
            if fin[i, j]:
                T[k[i, j], j] += W[i, j] * const[i]
    return T


def omega(W, D, Sfs=None):
    v = (D / W).imag / (2 * np.pi)
    return np.abs(v if Sfs is None else Sfs[:, None] - v)


def draw(rng, kind=None, stft=False, M=None):
    """W, D with w = |Im(D/W)|/2pi controlled; returns also w (inf where inactive)"""
    kind = kind or ['lin', 'log', 'piecewise'][rng.integers(0, 3)]
    M = M or int(rng.integers(2, 8))
    n = M if rng.random() < .6 else int(rng.integers(4, 12))
    n = max(n, 4 if kind == 'piecewise' else 2)
    N = int(rng.integers(1, 14))
    v, t = grid(rng, kind, n)
    w = draw_w(rng, (M, N), v, kind, t)
    W = rng.standard_normal((M, N)) + 1j * rng.standard_normal((M, N))
    gamma = 10. ** rng.uniform(-4, -.2)
    W = np.where(np.abs(np.abs(W) - gamma) < 1e-3, gamma * 3, W)
    W = np.where(rng.random((M, N)) < .15, 0, W)
    Sfs = None
    u = w * rng.choice([-1, 1], (M, N))
    if stft:
        Sfs = np.sort(rng.uniform(0, v[-1], M))
        u = Sfs[:, None] - u
    D = W * (2j * np.pi * u + rng.standard_normal((M, N)))
    act = np.abs(W) > gamma
    w = np.where(act, np.where(act, omega(np.where(act, W, 1), D, Sfs), 0), np.inf)
    if kind == 'lin' or stft:
        bad = tied(w, v, kind, t)
    else:
        bad = tied(w, v, kind, t)
    W, w = np.where(bad, 0, W), np.where(bad, np.inf, w)
    D = np.where(bad, 0, D)
    return dict(kind=kind, W=W, D=D, w=w, v=v, t=t, gamma=gamma, Sfs=Sfs, M=M, N=N, n=n)

import numpy as np
from .base import case, ensure, close, same, Skip
from ssqueezepy.wavelets import _xifn, afftshift, aifftshift, Wavelet
from ssqueezepy.utils import fftshift, ifftshift


@case(quick=150)
def grid(rng, k):
    N = k + 1 if k < 80 else int(rng.integers(80, 4000))
    s = 1. if k % 3 == 0 else float(10. ** rng.uniform(-2, 3))
    xi = _xifn(s, N)
    f = np.arange(N)
    f = np.where(f <= N // 2, f, f - N)
    close(xi, s * 2 * np.pi * f / N, 1e-13, 'frequency grid', scale=None, N=N, s=s)
    ensure(xi.shape == (N,) and (xi[:N // 2 + 1] >= 0).all() and (xi[N // 2 + 1:] < 0).all(),
           'signs', N=N, s=s)
    r = np.abs(np.exp(1j * _xifn(1., N)) - np.exp(2j * np.pi * np.fft.fftfreq(N)))
    ensure((r < 1e-12).all(), 'not the DFT frequencies', N=N)
    x32 = _xifn(s, N, np.float32)
    ensure(x32.dtype == np.float32, 'dtype')
    close(x32, xi, 1e-6, 'single precision grid', N=N, s=s)


@case(quick=120)
def centring(rng, k):
    N = k + 2
    x = rng.standard_normal(N)
    if k % 3 == 1:
        x = x + 1j * rng.standard_normal(N)
    x0 = x.copy()
    same(afftshift(aifftshift(x)), x0, 'shifts do not undo each other', N=N)
    same(aifftshift(afftshift(x)), x0, 'shifts do not undo each other (reversed)', N=N)
    same(x, x0, 'input modified', N=N)
    w = aifftshift(_xifn(1., N))
    ensure((np.diff(w) > 0).all(), 'centred frequencies are not ascending', N=N, w=w)
    close(np.diff(w), np.full(N - 1, 2 * np.pi / N), 1e-12, 'centred frequencies are not uniform', N=N)
    ensure(w[(N - 1) // 2] == 0, 'zero frequency is off centre', N=N, w=w)
    same(afftshift(w), _xifn(1., N), 'uncentring', N=N)


@case(quick=120)
def plain(rng, k):
    nd = 1 + k % 3
    shape = tuple(int(v) for v in rng.integers(1, 9, nd))
    x = rng.standard_normal(shape)
    ax = int(rng.integers(-nd, nd))
    same(ifftshift(fftshift(x, ax), ax), x, 'shifts do not undo each other', shape=shape, axis=ax)
    n = shape[ax]
    y = np.moveaxis(np.asarray(fftshift(x, ax)), ax, 0)
    z = np.moveaxis(x, ax, 0)
    for q in range(n):
        same(y[(q + n // 2) % n], z[q], 'fftshift', shape=shape, axis=ax)
    if ax == nd - 1:
        same(fftshift(x), fftshift(x, -1), 'default axis')
        same(ifftshift(x), ifftshift(x, -1), 'default axis')


@case(quick=30)
def wavelet_grid(rng, k):
    N0, N = int(rng.integers(2, 300)), int(rng.integers(2, 300))
    w = Wavelet(('morlet', {'dtype': 'float64'}), N=N0)
    same(w.xi, _xifn(1., N0), 'grid of the wavelet', N=N0)
    w.N = N
    same(w.xi, _xifn(1., N), 'grid of the wavelet after changing its length', N=N)
    sc = rng.uniform(.5, 60, int(rng.integers(2, 9)))
    f = _xifn(1., N)
    close(w.xifn(sc), sc[:, None] * f, 1e-13, 'scaled grid', N=N, scales=sc)
    close(w.xifn(sc[:, None]), sc[:, None] * f, 1e-13, 'scaled grid (column)', N=N, scales=sc)
    close(w.xifn(sc, N0), sc[:, None] * _xifn(1., N0), 1e-13, 'scaled grid, own length', N=N0, scales=sc)
    close(w.xifn(float(sc[0])), sc[0] * f, 1e-13, 'scaled grid, one scale', N=N)
    close(w.xifn(), f, 1e-13, 'grid, no scale', N=N)
    close(w.xifn(N=N0), _xifn(1., N0), 1e-13, 'grid, no scale, own length', N=N)

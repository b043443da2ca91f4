import numpy as np
import scipy.signal as sig
from .base import case, ensure, close, same, Skip
from .gen import signal
from ssqueezepy import stft
from ssqueezepy._stft import get_window
from ssqueezepy.utils import buffer, padsignal


def spectral_derivative(w):
    """derivative of the trigonometric interpolant of w, by an explicit DFT sum"""
    L = len(w)
    m = np.arange(L)
    out = np.zeros(L)
    for k in range(1, (L - 1) // 2 + 1):
        W = (w * np.exp(-2j * np.pi * k * m / L)).sum()
        out += 2 * np.real(1j * 2 * np.pi * k / L * W * np.exp(2j * np.pi * k * m / L)) / L
    return out


def window_of(rng, k, win_len):
    """(argument, values)"""
    kind = k % 4
    if kind == 0:
        return None, sig.windows.dpss(win_len, max(4, win_len // 8), sym=False)
    if kind == 1:
        name = ['hann', 'hamming', 'blackman', ('boxcar')][(k // 4) % 4]
        return name, sig.get_window(name, win_len, fftbins=True)
    w = rng.random(win_len) + .1           # asymmetric on purpose
    return w.copy(), w


def pad_to(w, n_fft):
    pl = (n_fft - len(w)) // 2
    out = np.zeros(n_fft)
    out[pl:pl + len(w)] = w
    return out


@case(quick=120, budget=15)
def framed(rng, k):
    N = int(rng.integers(20, 140))
    n_fft = int(rng.integers(9, min(N, 48)))
    win_len = n_fft if k % 3 else int(rng.integers(9, n_fft + 1))
    hop = int(rng.integers(1, 6))
    fs = float(10. ** rng.uniform(-1, 3))
    mod = bool(rng.integers(0, 2))
    pad = ['reflect', 'zero', 'wrap', 'symmetric', 'replicate'][k % 5]
    x = signal(rng, N)
    arg, w = window_of(rng, k, win_len)
    w = pad_to(w, n_fft)
    S, dS = stft(x, arg, n_fft=n_fft, win_len=win_len, hop_len=hop, fs=fs, padtype=pad,
                 modulated=mod, derivative=True, dtype='float64')
    S1 = stft(x, arg, n_fft=n_fft, win_len=win_len, hop_len=hop, fs=fs, padtype=pad,
              modulated=mod, dtype='float64')
    inp = dict(x=x, N=N, n_fft=n_fft, win_len=win_len, hop=hop, fs=fs, modulated=mod, padtype=pad,
               window=arg)
    n1 = n_fft // 2
    np_pad = dict(reflect='reflect', zero='constant', wrap='wrap', symmetric='symmetric', replicate='edge')[pad]
    xp = np.pad(x, (n1, n_fft - 1 - n1), mode=np_pad)
    hops = (N - 1) // hop + 1
    ensure(S.shape == (n_fft // 2 + 1, hops), 'shape', got=S.shape, **inp)
    m = np.arange(n_fft) - (n_fft // 2 if mod else 0)
    E = np.exp(-2j * np.pi * np.outer(np.arange(n_fft // 2 + 1), m) / n_fft)
    dw = spectral_derivative(w) * fs
    segs = np.stack([xp[i * hop:i * hop + n_fft] for i in range(hops)], 1)
    sc = np.abs(segs).max() * n_fft
    close(S, E @ (segs * w[:, None]), 1e-10, 'short-time transform', scale=sc, **inp)
    close(dS, E @ (segs * dw[:, None]), 1e-9, 'derivative of the short-time transform', scale=sc * max(fs, 1), **inp)
    same(S1, S, 'transform depends on derivative=True', **inp)


@case(quick=20)
def defaults(rng, k):
    N = int(rng.integers(40, 700))
    hop = int(rng.integers(1, 4))
    x = signal(rng, N)
    n_fft = min(N // hop, 512)
    a = stft(x, hop_len=hop, dtype='float64')
    b = stft(x, sig.windows.dpss(n_fft, max(4, n_fft // 8), sym=False), n_fft=n_fft, hop_len=hop,
             padtype='reflect', modulated=True, dtype='float64')
    ensure(a.shape == (n_fft // 2 + 1, (N - 1) // hop + 1), 'default shape', got=a.shape, N=N, hop=hop)
    close(a, b, 1e-12, 'defaults', N=N, hop=hop)


@case(quick=150)
def segments(rng, k):
    N = int(rng.integers(5, 120))
    L = int(rng.integers(1, N + 1))
    hop = int(rng.integers(1, L + 1))
    x = rng.standard_normal(N)
    par = [None, True, False][k % 3]
    n = (N - L) // hop + 1
    inp = dict(x=x, seg_len=L, hop=hop, parallel=par)
    for mod in (False, True):
        b = buffer(x, L, L - hop, mod, parallel=par)
        want = np.stack([x[i * hop:i * hop + L] for i in range(n)], 1)
        if mod:
            want = np.roll(want, -(L // 2), axis=0)
        same(b, want, 'segments (modulated=%s)' % mod, **inp)
    x2 = rng.standard_normal((3, N))
    b = buffer(x2, L, L - hop, bool(k % 2), parallel=par)
    for r in range(3):
        same(b[r], buffer(x2[r], L, L - hop, bool(k % 2), parallel=par), 'batched segments', **inp)


@case(quick=100)
def windows(rng, k):
    win_len = int(rng.integers(9, 60))
    n_fft = win_len + int(rng.integers(0, 20))
    arg, w = window_of(rng, k, win_len)
    w = pad_to(w, n_fft)
    a, d = get_window(arg, win_len, n_fft, derivative=True, dtype='float64')
    b = get_window(arg, win_len, n_fft, dtype='float64')
    inp = dict(window=arg, win_len=win_len, n_fft=n_fft)
    close(a, w, 1e-14, 'window', **inp)
    same(a, b, 'window depends on derivative=True', **inp)
    close(d, spectral_derivative(w), 1e-11, 'window derivative', scale=max(np.abs(w).max(), 1), **inp)
    try:
        get_window(arg, win_len, win_len - 1)
    except ValueError:
        return
    ensure(False, 'window longer than the transform accepted', **inp)

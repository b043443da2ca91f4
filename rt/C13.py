import numpy as np
import scipy.signal as sig
from .base import case, ensure, close, same, Skip
from .gen import signal
from .C12 import window_of, pad_to
from ssqueezepy import stft, istft
from ssqueezepy.utils import unbuffer, window_norm


@case(quick=250, budget=25)
def recover(rng, k):
    N = int(rng.integers(20, 160))
    n_fft = int(rng.integers(9, min(N, 48)))
    win_len = n_fft if k % 3 else int(rng.integers(9, n_fft + 1))
    hop = int(rng.integers(1, max(2, win_len // 2)))
    mod = bool(rng.integers(0, 2))
    x = signal(rng, N)
    arg, w = window_of(rng, k, win_len)
    w = pad_to(w, n_fft)
    a = int(rng.integers(0, 3))
    fs = float(rng.uniform(.5, 50))
    # precondition: every sample of the signal lies under some shifted window
    hops = (N - 1) // hop + 1
    cov = np.zeros(N + n_fft - 1)
    for i in range(hops):
        cov[i * hop:i * hop + n_fft] += w ** (a + 1)
    c = cov[n_fft // 2:n_fft // 2 + N]
    inp = dict(x=x, N=N, n_fft=n_fft, win_len=win_len, hop=hop, modulated=mod, window=arg, win_exp=a)
    close(window_norm(w, hop, n_fft, N, a), cov, 1e-12, 'window norm', **inp)
    if c.min() < 1e-6 * c.max():
        raise Skip()
    S = stft(x, arg, n_fft=n_fft, win_len=win_len, hop_len=hop, fs=fs, modulated=mod, dtype='float64',
             padtype=['reflect', 'zero', 'wrap', 'symmetric', 'replicate'][k % 5])
    S0 = S.copy()
    r = istft(S, arg, n_fft=n_fft, win_len=win_len, hop_len=hop, N=N, modulated=mod, win_exp=a)
    ensure(r.shape == (N,), 'length', got=r.shape, **inp)
    close(r, x, 1e-8, 'signal is not recovered', **inp)
    same(S, S0, 'caller\'s transform changed', **inp)
    if N % hop == 0 and n_fft % 2 == 0 and win_len == n_fft:
        r = istft(S, arg, hop_len=hop, modulated=mod, win_exp=a)
        close(r, x, 1e-8, 'signal is not recovered with default n_fft, N', **inp)


@case(quick=60, budget=12)
def uncovered(rng, k):
    """gaps between windows leave the covered samples intact"""
    n_fft = int(rng.integers(10, 24))
    hop = n_fft + int(rng.integers(1, 5))
    N = hop * int(rng.integers(3, 8))
    x = signal(rng, N, 0)
    w = rng.random(n_fft) + .5
    mod = bool(k % 2)
    S = stft(x, w, n_fft=n_fft, hop_len=hop, modulated=mod, dtype='float64')
    r = istft(S, w, n_fft=n_fft, hop_len=hop, N=N, modulated=mod)
    cov = np.zeros(N + n_fft - 1, bool)
    for i in range((N - 1) // hop + 1):
        cov[i * hop:i * hop + n_fft] = True
    c = cov[n_fft // 2:n_fft // 2 + N]
    close(r[c], x[c], 1e-9, 'covered samples', x=x, n_fft=n_fft, hop=hop, modulated=mod)
    close(r[~c], 0 * x[~c], 1e-9, 'uncovered samples', scale=1., x=x, n_fft=n_fft, hop=hop)


@case(quick=120)
def overlap_add(rng, k):
    N, n_fft = int(rng.integers(5, 90)), int(rng.integers(1, 30))
    hop = int(rng.integers(1, n_fft + 3))
    hops = (N - 1) // hop + 1
    a = int(rng.integers(0, 3))
    w = rng.random(n_fft) + .1
    B = rng.standard_normal((n_fft, hops))
    B0, w0 = B.copy(), w.copy()
    want = np.zeros(N + n_fft - 1)
    for i in range(hops):
        want[i * hop:i * hop + n_fft] += B[:, i] * w ** a
    inp = dict(xbuf=B, window=w, hop=hop, n_fft=n_fft, N=N, win_exp=a)
    close(unbuffer(B, w, hop, n_fft, N, a), want, 1e-12, 'overlap-add', **inp)
    same(B, B0), same(w, w0)
    try:
        unbuffer(B, np.append(w, 1.), hop, n_fft, N, a)
    except ValueError:
        return
    ensure(False, 'window of another length accepted', **inp)

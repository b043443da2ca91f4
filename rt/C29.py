import numpy as np
from .base import case, ensure, close, same, Skip
from .gen import signal
from ssqueezepy import cwt, stft, ssq_cwt, ssq_stft
from ssqueezepy.utils.cwt_utils import _process_fs_and_t

W64 = ('gmw', {'dtype': 'float64'})


@case(quick=200)
def processing(rng, k):
    N = int(rng.integers(3, 200))
    fs = float(10. ** rng.uniform(-2, 4))
    t0 = float(rng.uniform(-50, 50)) / fs
    t = t0 + np.arange(N) / fs
    for f_ in (None, 3.):
        dt, f, tt = _process_fs_and_t(f_, t, N)
        ensure(abs(f - fs) < 1e-6 * fs and abs(dt * f - 1) < 1e-12, 'rate from time vector', fs=fs, got=f, N=N, t0=t0)
        same(tt, t, 'time vector')
    dt, f, tt = _process_fs_and_t(fs, None, N)
    ensure(f == fs and dt == 1 / fs and tt is None, 'rate', fs=fs)
    dt, f, tt = _process_fs_and_t(None, None, N)
    ensure(f == 1 and dt == 1, 'default rate')
    bads = [t[:-1], np.append(t, t[-1] + 1 / fs)]
    u = np.arange(N) * 1.
    u[rng.integers(0, N)] += rng.uniform(.01, .4) * (1 + N / 100)
    bads += [u, np.arange(N)**1.3 + 1.]
    for q, b in enumerate(bads):
        try:
            r = _process_fs_and_t(None, b, N)
        except Exception:
            continue
        ensure(False, 'bad time vector accepted', case=q, t=b, N=N, got=r[:2])
    # whatever the unit of time
    r = rng.permutation(np.repeat([1., 3.], (N + 1) // 2))[:N]
    if np.any(np.diff(r)):
        b = np.cumsum(r) * 10.**rng.uniform(-12, 3)
        try:
            g = _process_fs_and_t(None, b, N)
        except Exception:
            g = None
        ensure(g is None, 'non-uniform time vector accepted', t=b, N=N, got=g)
    for b in (t[::-1].copy(), np.full(N, t0)):
        try:
            g = _process_fs_and_t(None, b, N)
        except Exception:
            continue
        ensure(False, 'time vector that does not increase accepted', t=b, N=N, got=g)
    for f in (0, -1., -fs):
        try:
            _process_fs_and_t(f, None, N)
        except ValueError:
            continue
        ensure(False, 'non-positive rate accepted', fs=f)


@case(quick=10)
def transforms(rng, k):
    n = int(rng.integers(50, 110))
    x = signal(rng, n)
    fs = float(10. ** rng.uniform(-1, 3))
    t = float(rng.uniform(-5, 5)) + np.arange(n) / fs
    i = dict(x=x, fs=fs)
    sc = ['log:maximal', np.linspace(2., 20., 24)][k % 2]
    kw = dict(scales=sc, nv=8, derivative=True, vectorized=bool(k % 3))
    A, B, C = cwt(x, W64, fs=fs, **kw), cwt(x, W64, t=t, **kw), cwt(x, W64, **kw)
    close(A[0], B[0], 1e-12, 'cwt: t and fs', **i)
    close(A[2], B[2], 1e-6, 'cwt derivative: t and fs', **i)
    close(A[0], C[0], 1e-12, 'cwt depends on fs', **i)
    close(A[2], C[2] * fs, 1e-9, 'cwt derivative is not proportional to fs', **i)
    kw = dict(n_fft=24, dtype='float64', derivative=True, modulated=bool(k % 2))
    A, B, C = stft(x, fs=fs, **kw), stft(x, t=t, **kw), stft(x, **kw)
    close(A[0], B[0], 1e-12, 'stft: t and fs', **i)
    close(A[1], B[1], 1e-6, 'stft derivative: t and fs', **i)
    close(A[0], C[0], 1e-12, 'stft depends on fs', **i)
    close(A[1], C[1] * fs, 1e-9, 'stft derivative is not proportional to fs', **i)


def mostly(a, b, what, **i):
    ensure(a.shape == b.shape, what + ': shapes', **i)
    d = np.abs(a - b) > 1e-7 * max(np.abs(b).max(), 1e-300)
    ensure(d.mean() < 4e-3, what + ': %.3g of the entries differ' % d.mean(), **i)


@case(quick=10)
def squeezed(rng, k):
    n = int(rng.integers(50, 110))
    x = signal(rng, n)
    fs = float(2. ** rng.integers(-3, 9))
    t = np.arange(n) / fs
    i = dict(x=x, fs=fs)
    gam = 1e-3
    for name, run in (
            ('ssq_cwt', lambda **q: ssq_cwt(x, W64, scales=['log:maximal', np.linspace(2., 20., 24)][k % 2], nv=8, gamma=gam,
                                            maprange=['peak', 'maximal', 'energy'][k % 3], get_w=bool(k % 4), **q)),
            ('ssq_stft', lambda **q: ssq_stft(x, n_fft=32, dtype='float64', gamma=gam, get_w=bool(k % 4), **q))):
        A, B, C = run(fs=fs), run(t=t), run()
        close(A[2], B[2], 1e-6, name + ' frequencies: t and fs', **i)
        mostly(A[0], B[0], name + ' Tx: t and fs', **i)
        close(A[2], C[2] * fs, 1e-9, name + ' frequencies are not proportional to fs', **i)
        close(A[1], C[1], 1e-12, name + ' transform depends on fs', **i)
        # the bin width of the short-time transform is part of its formula's constant
        mostly(A[0], C[0] * (fs if name == 'ssq_stft' else 1), name + ' Tx depends on fs', **i)

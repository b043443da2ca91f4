import os, copy, warnings
import numpy as np
from .base import case, ensure, close, same, Skip
from .gen import signal, cplx
import ssqueezepy as S
from ssqueezepy import (cwt, icwt, stft, istft, ssq_cwt, issq_cwt, ssq_stft, issq_stft, extract_ridges, Wavelet,
                        TestSignals, cwt_higher_order, _gmw, algos)
from ssqueezepy.ssqueezing import ssqueeze
from ssqueezepy._ssq_cwt import phase_cwt, phase_cwt_num
from ssqueezepy._ssq_stft import phase_stft
from ssqueezepy._stft import get_window
from ssqueezepy.utils import (padsignal, trigdiff, buffer, unbuffer, window_norm, process_scales, make_scales,
                              cwt_scalebounds, est_riskshrink_thresh, FFT_GLOBAL, adm_cwt, adm_ssq, nv_from_scales)

SHARED = {}
OUT = (np.ndarray, float, int, complex, np.generic, str, bool, type(None))


def wavelet():
    """one object used by all calls of the process"""
    if 'w' not in SHARED:
        SHARED['w'] = Wavelet(('gmw', dict(dtype='float64')))
    return SHARED['w']


def draw(rng):
    """(name, function, positional arguments, keyword arguments); rebuilt from the seed on demand"""
    n = int(rng.integers(130, 200))
    x = signal(rng, n)
    if rng.random() < .2:
        x = x.astype('float32')
    w = [wavelet(), 'morlet', ('gmw', dict(dtype='float64', beta=20.)), ['bump', dict(dtype='float64')],
         'gmw'][int(rng.integers(0, 5))]
    if isinstance(w, list):
        w = tuple(w)
    sc = 2. ** (1 + np.arange(30) / 6.)
    if rng.random() < .3:
        sc = sc[:, None]
    M = 30
    W = cplx(rng, M, 40, zeros=rng.random() < .5)
    D = cplx(rng, M, 40)
    f = 2. ** (np.arange(M) / 5 - 4)
    c = int(rng.integers(0, 27))
    flag = bool(rng.integers(0, 2))
    pad = ['reflect', 'zero', None, 'symmetric'][int(rng.integers(0, 4))]
    t = np.arange(n) / 20.
    if c < 4:
        kw = dict(scales=[sc, 'log', 'log-piecewise', 'linear'][int(rng.integers(0, 4))], derivative=flag, padtype=pad,
                  vectorized=bool(rng.integers(0, 2)), l1_norm=bool(rng.integers(0, 2)), cache_wavelet=[None, True, False][int(rng.integers(0, 3))], nv=None)
        if isinstance(kw['scales'], str):
            kw['nv'] = 8
            if w == 'morlet' or isinstance(w, tuple) and w[0] == 'bump':
                kw['scales'] = 'log'
        if kw['cache_wavelet'] and not kw['vectorized']:
            kw['cache_wavelet'] = None
        if flag:
            kw['t'] = t
        return 'cwt', cwt, (x, w), kw
    if c == 4:
        return 'icwt', icwt, (cplx(rng, 30, n), w), dict(scales=sc, x_mean=1.)
    if c == 5:
        return 'icwt two-integral', icwt, (cplx(rng, 30, n), w), dict(scales=sc, one_int=False)
    if c in (6, 7):
        return 'ssq_cwt', ssq_cwt, (x, w), dict(get_w=True, scales=sc, padtype=pad, fs=20., preserve_transform=flag, get_dWx=bool(rng.integers(0, 2)),
                                               difftype=['trig', 'phase', 'numeric'][int(rng.integers(0, 3))] if pad else 'trig',
                                               squeezing=['sum', 'lebesgue'][int(rng.integers(0, 2))], ssq_freqs=f if flag else None, flipud=bool(rng.integers(0, 2)))
    if c == 8:
        cc = np.sort(rng.integers(2, M - 2, (40, 2)), axis=1)
        return 'issq_cwt', issq_cwt, (W, w), dict(cc=cc, cw=rng.integers(0, 3, (40, 2)))
    if c == 9:
        return 'issq_cwt all', issq_cwt, (W, w), {}
    if c in (10, 11):
        win = [None, 'hann', np.hanning(32) + .01, 'hamming'][int(rng.integers(0, 4))]
        return 'stft', stft, (x,), dict(window=win, n_fft=32, hop_len=int(rng.integers(1, 4)), derivative=flag, modulated=bool(rng.integers(0, 2)),
                                        padtype=pad or 'reflect', t=t)
    if c == 12:
        win = np.hanning(32) + .01
        return 'istft', istft, (cplx(rng, 17, n),), dict(window=win, n_fft=32, hop_len=1, N=n)
    if c == 13:
        return 'ssq_stft', ssq_stft, (x,), dict(n_fft=32, padtype=pad or 'reflect', preserve_transform=flag, window=np.hanning(32) + .01,
                                               squeezing=['sum', 'lebesgue'][int(rng.integers(0, 2))], get_dWx=True)
    if c == 14:
        return 'issq_stft', issq_stft, (cplx(rng, 17, 40),), dict(window=np.hanning(32) + .01, n_fft=32, cc=rng.integers(1, 15, (40, 1)), cw=rng.integers(0, 3, (40, 1)))
    if c == 15:
        return 'extract_ridges', extract_ridges, (W, sc.ravel()), dict(penalty=3., n_ridges=2, bw=2, get_params=True, transform=['cwt', 'stft'][int(flag)], parallel=bool(rng.integers(0, 2)))
    if c == 16:
        return 'ssqueeze', ssqueeze, (W,), dict(w=np.abs(D).copy(), ssq_freqs=f, scales=sc, squeezing=['sum', 'lebesgue'][int(flag)])
    if c == 17:
        return 'ssqueeze fused', ssqueeze, (W,), dict(dWx=D, ssq_freqs=f, scales=sc, gamma=1e-6)
    if c == 18:
        return 'phase', phase_cwt, (W, D), dict(difftype=['trig', 'phase'][int(flag)], gamma=1e-6)
    if c == 19:
        return 'phase_num', phase_cwt_num, (W, .1), dict(difforder=4)
    if c == 20:
        return 'phase_stft', phase_stft, (W, D, np.linspace(0, .5, M)), dict(gamma=1e-6)
    if c == 21:
        return [('padsignal', padsignal, (x,), dict(padtype=pad or 'wrap', get_params=True)),
                ('trigdiff', trigdiff, (W,), dict(fs=3., padtype='reflect', rpadded=False)),
                ('buffer', buffer, (x, 16, 12), dict(modulated=flag)),
                ('window_norm', window_norm, (np.hanning(16) + .01, 2, 16, n), {}),
                ('thresh', est_riskshrink_thresh, (W, 8), {}),
                ('adm', adm_cwt, (w,), {}), ('adm', adm_ssq, (w,), {}),
                ('nv_from_scales', nv_from_scales, (sc.reshape(-1, 1),), {}),
                ('get_window', get_window, (np.hanning(16) + .01, 16), dict(n_fft=32, derivative=True, dtype='float64'))][int(rng.integers(0, 9))]
    if c == 22:
        return 'process_scales', process_scales, (sc, 200, w), dict(get_params=True)
    if c == 23:
        return 'cwt_higher_order', cwt_higher_order, (x, ('gmw', dict(dtype='float64'))), dict(order=(0, 1), average=flag, scales=sc)
    if c == 24:
        return 'test signals', (lambda sig, N, **kw: TestSignals(warn_alias=False, seed=3, **kw).make_signals(sig, N, get_params=True)), \
            ([('lchirp', dict(fmin=1., snr=5.)), 'echirp', ('lchirp:am-cosine', (dict(fmin=2.), dict(f=3.)))], 100), \
            dict(default_args=dict(lchirp=dict(fmin=3.)), default_tkw=dict(tmax=2))
    if c == 25:
        return 'search', algos.find_closest, (np.abs(D), f), dict(logscale=flag)
    return 'wavelet', (lambda wv, s, N: (lambda o: [o.Psih(s, N), o.psifn(scale=s, N=N), o.xifn(s, N), o.wc_ct])(
        wv if isinstance(wv, Wavelet) else Wavelet(wv))), (w, sc.reshape(-1, 1), 128), {}


def fail(rng):
    """a call that is rejected, maybe half-way"""
    x = signal(rng, 150)
    sc = 2. ** (1 + np.arange(30) / 6.)
    nan = np.where(np.arange(150) == 70, np.nan, x)
    c = int(rng.integers(0, 13))
    w = wavelet()
    return [lambda: cwt(x, w, scales='nonsense'), lambda: cwt(x, w, padtype='nonsense'), lambda: cwt(nan, w, nan_checks=True),
            lambda: cwt(x, w, scales=sc, patience=7), lambda: cwt(x, w, scales=sc, vectorized=False, patience='a'),
            lambda: cwt(x[None, None, None], w, scales=sc), lambda: ssq_cwt(x, w, scales=sc, ssq_freqs='x'),
            lambda: ssq_cwt(x, w, scales=sc, squeezing='x'), lambda: ssq_cwt(x, w, scales=sc, difftype='x'),
            lambda: icwt(cplx(rng, 29, 150), w, scales=sc), lambda: stft(x, n_fft=16, win_len=99),
            lambda: cwt_higher_order(x, w, order=(0, -1)), lambda: ssq_stft(x, n_fft=16, squeezing='y')][c]


def frozen(v):
    """deep copy of arguments (wavelet objects stay themselves)"""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {k: frozen(a) for k, a in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(frozen(a) for a in v)
    return v


def equal(a, b, what, **i):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        same(a, b, what, **i)
        ensure(a.dtype == b.dtype, what + ': dtype', **i)
    elif isinstance(a, dict):
        ensure(isinstance(b, dict) and list(a) == list(b), what + ': keys', a=a, b=b, **i)
        for k in a:
            equal(a[k], b[k], what, **i)
    elif isinstance(a, (list, tuple)):
        ensure(type(a) == type(b) and len(a) == len(b), what + ': length', a=a, b=b, **i)
        for p, q in zip(a, b):
            equal(p, q, what, **i)
    elif isinstance(a, Wavelet):
        ensure(a is b, what + ': wavelet', **i)
    elif isinstance(a, (float, complex)):
        ensure(a == b or (a != a and b != b), what, a=a, b=b, **i)
    else:
        ensure(type(a) == type(b) and (a == b or not isinstance(a, OUT)), what, a=a, b=b, **i)


def settings():
    w = wavelet()
    return dict(patience=FFT_GLOBAL.patience, limit=FFT_GLOBAL.planning_timelimit, N=w.N, xi=np.array(w.xi), dtype=w.dtype,
                config=dict(w.config), env={k: v for k, v in os.environ.items() if k.startswith('SSQ')},
                err=dict(np.geterr()), defaults=copy.deepcopy(getattr(S.configs, 'GDEFAULTS', None)),
                supported=list(Wavelet.SUPPORTED), demo=list(TestSignals.DEMO), args=copy.deepcopy(S._test_signals.DEFAULT_ARGS))


def arrays(v):
    if isinstance(v, np.ndarray):
        yield v
    elif isinstance(v, dict):
        for a in v.values():
            yield from arrays(a)
    elif isinstance(v, (list, tuple)):
        for a in v:
            yield from arrays(a)


def make(seed):
    return draw(np.random.default_rng(seed))


def call(seed, what):
    name, fn, a, kw = make(seed)
    fa, fkw = frozen(a), frozen(kw)
    i = dict(call=name, at=what, args=a[1:], kwargs=kw)
    st = None if name == 'test signals' else np.random.get_state()
    try:
        r = fn(*a, **kw)
    except Exception as e:
        r = 'raises ' + type(e).__name__
    if st is not None:
        s2 = np.random.get_state()
        ensure(all(np.array_equal(p, q) for p, q in zip(st, s2)), 'global random state changed', **i)
    equal(a, fa, 'arguments modified', **i)
    equal(kw, fkw, 'keyword arguments modified', **i)
    return name, r, (a, kw), i


@case(quick=60, budget=40)
def histories(rng, k):
    wavelet()
    s0 = settings()
    seeds = [[int(v) for v in rng.integers(0, 2**31, 2)] for _ in range(3)]
    hist = []
    for j in range(6):
        u = j if j < 3 else int(rng.integers(0, 3))
        if rng.random() < .35:
            f = fail(rng)
            try:
                f()
            except Exception:
                hist.append('failed call')
            else:
                hist.append('call expected to fail')
            equal(settings(), s0, 'settings changed by a failed call', history=hist)
        name, r, args, i = call(seeds[u], hist)
        first = SHARED.setdefault(tuple(seeds[u]), (name, frozen(r)))
        equal(r, first[1], name + ': result depends on earlier calls', **i)
        equal(settings(), s0, name + ': settings changed', **i)
        hist.append(name)
        if not isinstance(r, str) and name != 'wavelet' and rng.random() < .5:
            # the caller owns the results
            ins = list(arrays(args))
            for a in arrays(r):
                if a.flags.writeable and not any(np.shares_memory(a, b) for b in ins):
                    a[...] = 0
            hist.append('(results overwritten)')


@case(quick=100, budget=12)
def once(rng, k):
    """arguments and settings of every kind of call"""
    wavelet()
    s0 = settings()
    name, r, args, i = call([int(v) for v in rng.integers(0, 2**31, 2)], 'once')
    equal(settings(), s0, name + ': settings changed', **i)

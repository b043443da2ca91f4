import numpy as np
from .base import case, ensure, close, same, Skip
from . import ssqref as R
from .C03 import const_of, inp
from .gen import signal
from ssqueezepy.algos import (indexed_sum_onfly, ssqueeze_fast, phase_cwt_cpu, phase_stft_cpu,
                              find_closest, indexed_sum)
from ssqueezepy import ssq_cwt, ssq_stft
from ssqueezepy.ssqueezing import ssqueeze


@case(quick=150)
def fused_is_two_step(rng, k):
    stft = k % 3 == 2
    d = R.draw(rng, 'lin' if stft else None, stft=stft)
    c = const_of(rng, d['M'])
    flip, par = bool(rng.integers(0, 2)), [None, False, True][rng.integers(0, 3)]
    log = d['kind'] != 'lin'
    Z = lambda: np.zeros((d['n'], d['N']), complex)
    w = (phase_stft_cpu(d['W'], d['D'], d['Sfs'], d['gamma'], par) if stft else
         phase_cwt_cpu(d['W'], d['D'], d['gamma'], par))
    A = indexed_sum_onfly(d['W'], w, d['v'], c, log, flip, out=Z(), parallel=par)
    B = ssqueeze_fast(d['W'], d['D'], d['v'], c, log, flip, d['gamma'], out=Z(),
                      Sfs=d['Sfs'], parallel=par)
    close(B, A, 1e-9, 'fused and two-step synchrosqueezing differ',
          **inp(d, const=c, flipud=flip, parallel=par))
    if d['n'] == d['M'] and not flip:
        fin = np.isfinite(w)
        kk = find_closest(np.where(fin, w, d['v'][0]), d['v'], logscale=log, parallel=bool(par), smart=False)
        cc = np.broadcast_to(np.asarray(c, float), (d['M'],))[:, None]
        C = indexed_sum(np.where(fin, d['W'], 0) * cc, kk, parallel=par)
        close(A, C, 1e-9, 'find_closest + indexed_sum differs', **inp(d, const=c, parallel=par))


@case(quick=60)
def ssqueeze_paths(rng, k):
    d = R.draw(rng, ['log', 'lin'][k % 2], M=int(rng.integers(4, 9)))
    sq = ['sum', 'abs', 'lebesgue', lambda W: W * W][rng.integers(0, 4)]
    nv = 16
    scales = 2. ** (1 + np.arange(d['M']) / nv)
    flip = bool(rng.integers(0, 2))
    kw = dict(ssq_freqs=d['v'], scales=scales, flipud=flip, squeezing=sq)
    if len(d['v']) < 4:
        raise Skip()
    w = phase_cwt_cpu(d['W'], d['D'], d['gamma'])
    A, fa = ssqueeze(d['W'].copy(), w, **kw)
    B, fb = ssqueeze(d['W'].copy(), None, gamma=d['gamma'], dWx=d['D'], **kw)
    close(B, A, 1e-9, 'ssqueeze with w and with dWx differ', **inp(d, flipud=flip, squeezing=str(sq)))
    same(fa, fb, 'row frequencies')
    # STFT
    d = R.draw(rng, 'lin', stft=True)
    kw = dict(ssq_freqs=d['v'], Sfs=d['Sfs'], flipud=flip, squeezing=sq, transform='stft')
    w = phase_stft_cpu(d['W'], d['D'], d['Sfs'], d['gamma'])
    A, fa = ssqueeze(d['W'].copy(), w, **kw)
    B, fb = ssqueeze(d['W'].copy(), None, gamma=d['gamma'], dWx=d['D'], **kw)
    close(B, A, 1e-9, 'ssqueeze (stft) with w and with dWx differ', **inp(d, flipud=flip, squeezing=str(sq)))


@case(quick=10)
def extra_outputs(rng, k):
    """asking for w / dWx / keeping the transform never changes the other outputs"""
    n = int(rng.integers(64, 150))
    x = signal(rng, n, [0, 2, 4][k % 3])
    sq = ['sum', 'abs', 'lebesgue', lambda W: W * W][k % 4]
    i = dict(x=x, squeezing=str(sq))
    gamma = 1e-3
    for kind in ('cwt', 'stft'):
        res = {}
        if kind == 'cwt':
            run = lambda **kw: ssq_cwt(x, ('gmw', {'dtype': 'float64'}), gamma=gamma,
                                       scales=['log:maximal', 'log-piecewise', np.linspace(2., 30., 40)][k % 3],
                                       maprange='peak' if k % 3 == 1 else 'maximal',
                                       squeezing=sq, **kw)
        else:
            run = lambda **kw: ssq_stft(x, dtype='float64', gamma=gamma, squeezing=sq, **kw)
        base = run()
        for gw in (False, True):
            for gd in (False, True):
                for pt in (None, True, False):
                    o = run(get_w=gw, get_dWx=gd, preserve_transform=pt)
                    ensure(len(o) == 4 + gw + gd, 'number of outputs', **i)
                    for a, (u, v) in enumerate(zip(base, o)):
                        # coefficients within rounding of a bin edge may move one row
                        if a == 0:
                            d = np.abs(u - v) > 1e-8 * np.abs(u).max()
                            ensure(d.mean() < 2e-3, '%s: Tx depends on get_w=%s get_dWx=%s '
                                   'preserve_transform=%s' % (kind, gw, gd, pt), **i)
                        else:
                            close(v, u, 1e-9, '%s: output %d depends on get_w=%s get_dWx=%s '
                                  'preserve_transform=%s' % (kind, a, gw, gd, pt), **i)

import numpy as np
from .base import case, ensure, close, same, Skip
from . import ssqref as R
from ssqueezepy import algos
from ssqueezepy.algos import indexed_sum_onfly, ssqueeze_fast
from ssqueezepy.ssqueezing import ssqueeze


def const_of(rng, M):
    c = rng.uniform(.2, 3)
    if rng.random() < .5:
        return rng.uniform(.2, 3, M)
    return c


def inp(d, **k):
    return dict({a: d[a] for a in ('kind', 'W', 'D', 'w', 'v', 'gamma', 'Sfs')}, **k)


@case(quick=200)
def squeeze_by_w(rng, k):
    d = R.draw(rng)
    u = [1, 1, 1e-10, 1e9][k % 4]            # unit of frequency
    d['w'], d['v'] = d['w'] * u, d['v'] * u
    c = const_of(rng, d['M'])
    flip, par = bool(rng.integers(0, 2)), [None, False, True][rng.integers(0, 3)]
    out = rng.standard_normal((d['n'], d['N'])) + 0j
    want = R.squeeze(d['W'], d['w'], d['v'], d['kind'], c, flip, out)
    got = indexed_sum_onfly(d['W'], d['w'], d['v'], c, d['kind'] != 'lin', flip, out=out, parallel=par)
    close(got, want, 1e-9, 'Tx is not the sum of each coefficient at its nearest bin',
          **inp(d, const=c, flipud=flip, parallel=par))


@case(quick=200)
def squeeze_fused(rng, k):
    d = R.draw(rng)
    c = const_of(rng, d['M'])
    flip, par = bool(rng.integers(0, 2)), [None, False, True][rng.integers(0, 3)]
    out = rng.standard_normal((d['n'], d['N'])) + 0j
    want = R.squeeze(d['W'], d['w'], d['v'], d['kind'], c, flip, out)
    got = ssqueeze_fast(d['W'], d['D'], d['v'], c, d['kind'] != 'lin', flip, d['gamma'],
                        out=out, parallel=par)
    close(got, want, 1e-8, 'Tx is not the sum of each coefficient at its nearest bin',
          **inp(d, const=c, flipud=flip, parallel=par))


@case(quick=120)
def squeeze_stft(rng, k):
    d = R.draw(rng, 'lin', stft=True)
    c = const_of(rng, d['M'])
    flip, par = bool(rng.integers(0, 2)), [None, False, True][rng.integers(0, 3)]
    want = R.squeeze(d['W'], d['w'], d['v'], 'lin', c, flip)
    out = np.zeros((d['n'], d['N']), 'complex128')
    got = ssqueeze_fast(d['W'], d['D'], d['v'], c, False, flip, d['gamma'], out=out,
                        Sfs=d['Sfs'], parallel=par)
    close(got, want, 1e-8, 'STFT Tx is not the sum of each coefficient at its nearest bin',
          **inp(d, const=c, flipud=flip, parallel=par))
    # kernels directly
    for fn in (algos._ssq_stft, algos._ssq_stft_par):
        out = np.zeros((d['n'], d['N']), 'complex128')
        fn(d['W'], d['D'], d['Sfs'], out, np.broadcast_to(np.asarray(c, float), (d['M'],)).copy(),
           d['gamma'], d['v'][0], d['v'][1] - d['v'][0], d['n'] - 1, flip)
        close(out, want, 1e-8, 'STFT squeezing kernel', **inp(d, const=c, flipud=flip))


@case(quick=100)
def public(rng, k):
    """ssqueeze(Wx, w | dWx, ssq_freqs=array, scales=array): bins, weights"""
    kind = ['log', 'lin'][k % 2]
    d = R.draw(rng, kind, M=int(rng.integers(4, 9)))
    cwt_lin = rng.random() < .3
    nv = int(rng.integers(4, 33))
    if cwt_lin:
        scales = rng.uniform(1, 3) + rng.uniform(.5, 2) * np.arange(d['M'])
        c = (scales[1] - scales[0]) / scales
    else:
        scales = 2. ** (rng.integers(0, 20) / nv + np.arange(d['M']) / nv)
        c = np.full(d['M'], np.log(2) / nv)
    if len(d['v']) < 4:
        raise Skip()
    flip = bool(rng.integers(0, 2))
    want = R.squeeze(d['W'], d['w'], d['v'], kind, c, flip)
    i = inp(d, scales=scales, flipud=flip)
    v0 = d['v'].copy()
    kw = dict(ssq_freqs=d['v'], scales=scales, flipud=flip)
    T1, f1 = ssqueeze(d['W'].copy(), d['w'], **kw)
    T2, f2 = ssqueeze(d['W'].copy(), None, gamma=d['gamma'], dWx=d['D'], **kw)
    close(T1, want, 1e-8, 'ssqueeze(w=...)', **i)
    close(T2, want, 1e-8, 'ssqueeze(dWx=...)', **i)
    fw = v0[::-1] if flip else v0
    same(np.asarray(f1), fw, 'row frequencies', **i)
    same(np.asarray(f2), fw, 'row frequencies', **i)

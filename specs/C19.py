"""C19  Frequencies of the synchrosqueezed transform: bounds, spacing, order."""
from .common import *
from . import sq
from .sq import SQ, NAMES

WC = lambda s, N, kind: P.uf('wc!' + kind, P.R, P.I, P.R)(zr(s), zi(N))


def stubs(scales, kind, N, idx, seen):
    """kernels, scale grid (C17, C18), padded length (C01), centre frequency of the wavelet"""
    for f in ('indexed_sum_onfly', 'ssqueeze_fast'):
        def kernel(*a, **kw):
            seen.append(1)
        INTERP.stubs[sq.AL + f] = kernel
    sc = scales.snap()
    na = scales.shape[0]
    nv = real('nv')
    assume(nv > 0)

    def process_scales(s, N_, wavelet=None, nv_=None, get_params=False, **kw):
        return A.copy_arr(scales), NAMES[kind], na, nv
    up = integer('up', zi(N))
    one = lambda s: (s.at(*[0] * s.ndim) if isarr(s) else s)

    def center(wavelet, scale=None, N=1024, kind='energy', force_int=None, viz=False):
        ensure('kind of centre', kind in ('peak', 'energy'))
        return WC(one(scale), N, kind)

    def transition(v):
        # contract of logscale_transition_idx (C18): where the slope of a two-slope vector changes
        ensure('as many as rows', eq(v.shape[0], na))
        if v.ndim == 2:
            return idx
        return O.sub(na, idx)
    INTERP.stubs['ssqueezepy.utils.cwt_utils:process_scales'] = process_scales
    INTERP.stubs['ssqueezepy.utils.cwt_utils:logscale_transition_idx'] = transition
    INTERP.stubs['ssqueezepy.utils.common:p2up'] = lambda n: (up, 0, 0)
    INTERP.stubs['ssqueezepy.wavelets:center_frequency'] = center
    return sc, up


def setup(kind, maprange, padded=True):
    class s:
        pass
    s.na, s.N = dim('na', 3), dim('N', 3)
    s.fs = real('fs')
    assume(s.fs > 0)
    s.scales = arr('scales', (s.na, 1))
    s.idx = integer('idx', 1, O.sub(s.na, 1))
    s.seen = []
    s.sc, up = stubs(s.scales, kind if kind != 'lin' else 'lin', s.N, s.idx, s.seen)
    L = up if padded else s.N
    # frequencies in cycles per unit time
    hz = lambda i: O.mul(O.div(WC(s.sc(i, 0), L, maprange), TWO_PI), s.fs)
    if maprange in ('tuple', 'list'):
        s.lo, s.hi = real('lo'), real('hi')
        s.range = (s.lo, s.hi) if maprange == 'tuple' else [s.lo, s.hi]
    elif maprange == 'maximal':
        s.lo, s.hi = O.div(s.fs, s.N), O.div(s.fs, 2.0)
        s.range = maprange
    else:
        s.lo, s.hi = hz(O.sub(s.na, 1)), hz(0)
        s.range = maprange
    s.mid = hz(s.idx)
    assume(both(s.lo > 0, s.lo < s.hi))
    if kind == 'piecewise':
        assume(both(s.lo < s.mid, s.mid < s.hi))
    s.W, s.D = arr('Wx', (s.na, s.N), 'complex128'), arr('dWx', (s.na, s.N), 'complex128')
    return s


def spaced(kind, a, b, t):
    if kind == 'lin':
        return O.add(a, O.mul(O.sub(b, a), t))
    return O.mul(a, O.pow_(O.div(b, a, 'raw'), t))


CASES = [dict(kind=k, maprange=m) for k in ('log', 'lin') for m in ('maximal', 'tuple', 'list')] + \
    [dict(kind=k, maprange=m, padded=p) for k in ('log', 'lin', 'piecewise') for m in ('peak', 'energy')
     for p in (True, False)] + \
    [dict(kind=k, maprange=m, asked=True) for k in ('log', 'lin') for m in ('maximal', 'tuple')] + \
    [dict(kind=k, maprange='peak', asked=True) for k in ('log', 'lin', 'piecewise')]


@vc('frequencies', SQ + 'ssqueeze', SQ + '_compute_associated_frequencies', SQ + '_ssq_freqrange',
    SQ + '_exp_fm', SQ + '_get_center_frequency', cases=CASES, timeout=30000)
def frequencies(kind, maprange, padded=True, asked=False):
    """bounds of the requested range, requested spacing, ascending"""
    s = setup(kind, maprange, padded)
    if kind == 'piecewise':
        INTERP.stubs[SQ + '_exp_fm'] = exp_fm
    kw = dict(ssq_freqs=NAMES[kind]) if asked else {}
    _, f = call(SQ + 'ssqueeze', s.W, None, scales=s.scales, wavelet=object(), maprange=s.range, fs=s.fs,
                was_padded=padded, dWx=s.D, gamma=1e-6, flipud=False, **kw)
    k, na = index('k', s.na), s.na
    last = O.sub(na, 1)
    ensure('one per row', shape_is(f, na))
    n1 = O.sub(na, 1)
    if kind == 'piecewise':
        p = O.sub(n1, s.idx)        # row of the transition, low frequencies first
        lo = spaced('log', s.lo, s.mid, O.div(zr(k), zr(p), 'raw'))
        hi = spaced('log', s.mid, s.hi, O.div(zr(k - p), zr(n1 - p), 'raw'))
        ensure('both pieces geometric', eq(f.at(k), ite(k < p, lo, hi)))
        ensure('transition', eq(f.at(p), s.mid))
    else:
        ensure('spacing', eq(f.at(k), spaced(kind, s.lo, s.hi, O.div(zr(k), zr(n1), 'raw'))))
    ensure('lowest', eq(f.at(0), s.lo))
    ensure('highest', eq(f.at(last), s.hi))
    assume(k < last)
    ensure('bounds in order', O.lt(1.0, O.div(s.hi, s.lo, 'raw')))
    if kind == 'log':
        ensure('fractions in order', O.lt(O.div(zr(k), zr(n1), 'raw'), O.div(zr(k + 1), zr(n1), 'raw')))
    if kind == 'piecewise':
        ensure('bounds in order', both(O.lt(1.0, O.div(s.mid, s.lo, 'raw')), O.lt(1.0, O.div(s.hi, s.mid, 'raw'))))
        for i in (k, k + 1):
            u, v = O.div(zr(i), zr(p), 'raw'), O.div(zr(i - p), zr(n1 - p), 'raw')
            ensure('fractions', both(either(i > p, both(u >= 0, u <= 1)), either(i < p, both(v >= 0, v <= 1))))
    ensure('ascending', O.lt(f.at(k), f.at(k + 1)))


def exp_fm(t, fmin, fmax):
    """contract of _exp_fm: from fmin at the first and least to fmax at the last and greatest of t"""
    n = t.shape[0]
    last = O.sub(n, 1)
    k = index('any', n)
    ensure('two or more points', both(n >= 2, O.lt(t.at(0), t.at(last))))
    ensure('first least, last greatest', both(O.le(t.at(0), t.at(k)), O.le(t.at(k), t.at(last))))
    return A.new_arr((n,), 'float64', lambda i: spaced('log', fmin, fmax, O.div(
        O.sub(t.at(i), t.at(0)), O.sub(t.at(last), t.at(0)), 'raw')))


@vc('geometric', SQ + '_exp_fm')
def geometric():
    n = dim('n', 2)
    t = arr('t', (n,))
    a, b = real('a'), real('b')
    last = O.sub(n, 1)
    t0, t1 = t.at(0), t.at(last)
    every('t', lambda v: z3.And(t0 <= v, v <= t1))
    assume(both(0 < a, a <= b, t.at(0) < t.at(last)))
    r = call(SQ + '_exp_fm', t, a, b)
    k = index('k', n)
    ensure('shape', shape_is(r, n))
    ensure('geometric', eq(r.at(k), spaced('log', a, b, O.div(O.sub(t.at(k), t.at(0)), O.sub(
        t.at(last), t.at(0)), 'raw'))))


@vc('given frequencies', SQ + 'ssqueeze', cases=[dict(flip=f, kind=k) for f in (False, True) for k in ('lin', 'log')])
def given(flip, kind):
    """vectors of the user come back as given, in the row order asked for"""
    s = sq.ssq_case(kind=kind, freqs='given', fused=True, flip=flip)
    T, f = sq.run(s)
    k = index('k', s.nf)
    ensure('as given', both(shape_is(f, s.nf), shape_is(T, s.nf, s.N), eq(
        f.at(k), s.g.value(O.sub(O.sub(s.nf, 1), k) if flip else k))))
    ensure('not changed in place', eq(s.given.at(k), s.g.value(k)))


@vc('stft frequencies', 'ssqueezepy._ssq_stft:ssq_stft', cases=[dict(flip=f) for f in (False, True)])
def stft_grid(flip):
    """zero to half the sampling rate, uniform"""
    s = sq.whole_stft(flip=flip)
    f = s.res[2]
    k = index('k', s.nf)
    r = O.sub(O.sub(s.nf, 1), k) if flip else k
    ensure('uniform to half the rate', both(shape_is(f, s.M), eq(O.mul(f.at(k), O.sub(s.M, 1)), O.mul(
        O.mul(0.5, s.fs), r))))

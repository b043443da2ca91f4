"""C14  Inverse synchrosqueezing: full sum; exactly the requested bands; remainder."""
from .common import *

CQ = 'ssqueezepy._ssq_cwt:'
SQ = 'ssqueezepy._ssq_stft:'


def column_sum(t, nf, m, keep=True):
    i = P.bindvar('i')
    k = keep if keep is True else keep(i, m)
    return A.make_sum([(i, 0, nf)], True, ite(k, lift_cx(t(i, m)).re, 0.0))


def curves(K, N, one_d):
    shape = (N,) if one_d else (N, K)
    cc, cw = arr('cc', shape, 'int64'), arr('cw', shape, 'int64')
    c0, w0 = cc.snap(), cw.snap()
    cc_ = (lambda m, n: c0(m)) if one_d else c0
    cw_ = (lambda m, n: w0(m)) if one_d else w0
    # rows, or -1 where the curve is absent; half-widths are not negative
    every('cc', lambda x: z3.And(x >= -1, x < 2**31 // 2))
    every('cw', lambda x: z3.And(x >= 0, x < 2**31 // 2))
    return cc, cw, cc_, cw_


def bands(x, t, cc, cw, nf, N, K, gain):
    m = index('m', N)

    def in_band(n):
        return lambda i, m: both(no(eq(cc(m, n), -1)), O.le(O.sub(cc(m, n), cw(m, n)), i),
                                 O.le(i, O.add(cc(m, n), cw(m, n))))
    ensure('one row per component and the remainder', shape_is(x, O.add(K, 1), N))
    for n in range(K):
        want = column_sum(t, nf, m, in_band(n))
        ensure('component is the sum over its band', eq(x.at(n, m), O.mul(want, gain)))
    rest = column_sum(t, nf, m, lambda i, m: no(either(*[in_band(n)(i, m) for n in range(K)])))
    ensure('remainder is the sum outside every band', eq(x.at(K, m), O.mul(rest, gain)))


@vc('issq_cwt', CQ + 'issq_cwt', CQ + '_invert_components', CQ + '_process_component_inversion_args',
    cases=[dict(K=0, one_d=False), dict(K=1, one_d=True), dict(K=1, one_d=False),
           dict(K=2, one_d=False), dict(K=3, one_d=False)])
def issq_cwt(K, one_d):
    nf, N = dim('nf'), dim('N')
    T = arr('Tx', (nf, N), 'complex128')
    T0 = T.snap()
    Css = real('Css')
    assume(Css > 0)
    INTERP.stubs['ssqueezepy.utils.cwt_utils:adm_ssq'] = lambda w: Css
    INTERP.stubs['ssqueezepy.wavelets:Wavelet._init_if_not_isinstance'] = lambda *a, **k: None
    gain = O.div(2, Css)
    if not K:
        x = call(CQ + 'issq_cwt', T, 'gmw')
        m = index('m', N)
        ensure('full inverse', both(shape_is(x, N), eq(x.at(m), O.mul(column_sum(T0, nf, m), gain))))
    else:
        cc, cw, c0, w0 = curves(K, N, one_d)
        x = call(CQ + 'issq_cwt', T, 'gmw', cc, cw)
        bands(x, T0, c0, w0, nf, N, K, gain)
        ensure('curves untouched', eq(cc.at(*((0,) if one_d else (0, 0))), c0(0, 0)))
    i, j = index('i', nf), index('j', N)
    ensure('input untouched', eq(T.at(i, j), T0(i, j)))


@vc('issq_stft', SQ + 'issq_stft', CQ + '_invert_components', CQ + '_process_component_inversion_args',
    cases=[dict(K=k, given=g) for k in (0, 1, 2) for g in (False, True)])
def issq_stft(K, given):
    nf, N = dim('nf', 2), dim('N')
    T = arr('Tx', (nf, N), 'complex128')
    T0 = T.snap()
    nfft = dim('n_fft', 2) if given else 2 * (nf - 1)
    win = arr('window', (nfft,), 'float64')
    asked = {}

    def get_window(w, win_len, n_fft=None, *a, **k):
        asked.update(n=n_fft, l=win_len)
        return A.copy_arr(win)
    INTERP.stubs['ssqueezepy._stft:get_window'] = get_window
    INTERP.stubs['ssqueezepy._stft:_check_NOLA'] = lambda *a, **k: None
    mid = win.at(nfft / 2)
    assume(mid != 0)
    kw = dict(n_fft=nfft) if given else {}
    gain = O.div(2, mid)
    if not K:
        x = call(SQ + 'issq_stft', T, None, **kw)
        m = index('m', N)
        ensure('full inverse', both(shape_is(x, N), eq(x.at(m), O.mul(column_sum(T0, nf, m), gain))))
    else:
        cc, cw, c0, w0 = curves(K, N, False)
        x = call(SQ + 'issq_stft', T, None, cc, cw, **kw)
        bands(x, T0, c0, w0, nf, N, K, gain)
    ensure('window of the transform length', both(eq(asked['n'], nfft), eq(asked['l'], nfft)))
    i, j = index('i', nf), index('j', N)
    ensure('input untouched', eq(T.at(i, j), T0(i, j)))


@vc('issq_stft rejects', SQ + 'issq_stft', cases=[dict(kw=dict(hop_len=2)), dict(kw=dict(modulated=False))])
def issq_stft_rejects(kw):
    T = arr('Tx', (dim('nf', 2), dim('N')), 'complex128')
    e = raises(lambda: call(SQ + 'issq_stft', T, None, **kw))
    ensure('rejected', e == 'ValueError')

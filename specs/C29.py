"""C29  Sampling rate and time vector."""
from .common import *

U_ = 'ssqueezepy.utils.cwt_utils:'
SF = 'ssqueezepy._stft:'


def times(N, t0, step):
    return A.new_arr((N,), A.as_dtype('float64'), lambda k: O.add(t0, O.mul(step, k)))


@vc('uniform time vector', U_ + '_process_fs_and_t', cases=[
    dict(given=g, dt='float64') for g in (False, True)])
def from_times(given, dt):
    N = dim('N', 3)
    t0, fs, other = real('t0'), real('fs'), real('other')
    assume(fs > 0)
    step = O.div(1.0, fs, 'raw')
    t = times(N, t0, step)
    T = t.snap()
    r = call(U_ + '_process_fs_and_t', other if given else None, t, N)
    k = index('k', N)
    ensure('rate', both(eq(r[1], fs), eq(O.mul(r[0], fs), 1)))
    ensure('time vector', both(shape_is(r[2], N), eq(r[2].at(k), T(k)), eq(t.at(k), T(k))))


@vc('rate', U_ + '_process_fs_and_t', cases=[dict(given=g) for g in (False, True)])
def from_rate(given):
    N = dim('N')
    fs = real('fs')
    assume(fs > 0)
    r = call(U_ + '_process_fs_and_t', fs if given else None, None, N)
    want = fs if given else 1
    ensure('rate', both(eq(r[1], want), eq(O.mul(r[0], want), 1), r[2] is None))


@vc('rate rejected', U_ + '_process_fs_and_t')
def bad_rate():
    N = dim('N')
    fs = real('fs')
    assume(fs <= 0)
    e = raises(lambda: call(U_ + '_process_fs_and_t', fs, None, N))
    ensure('rejected', e == 'ValueError')


@vc('length rejected', U_ + '_process_fs_and_t', cases=[dict(given=g) for g in (False, True)])
def bad_length(given):
    N, M = dim('N'), dim('M')
    assume(M != N)
    e = raises(lambda: call(U_ + '_process_fs_and_t', real('fs') if given else None, arr('t', (M,)), N))
    ensure('rejected', e == 'Exception')


@vc('non-uniform rejected', U_ + '_process_fs_and_t', cases=[dict(given=g) for g in (False, True)])
def non_uniform(given):
    """any vector whose mean absolute second difference is 1e-7 or more, relative to the largest
    time if that is less than one"""
    N = dim('N', 3)
    t = arr('t', (N,))
    m, at = real('m'), index('k!m', N)
    every('t', lambda x: O.le(O.fabs(x), m))
    assume(eq(O.fabs(t.at(at)), m))
    k = P.bindvar('k')
    d2 = O.fabs(O.sub(O.sub(t.at(k + 2), t.at(k + 1)), O.sub(t.at(k + 1), t.at(k))))
    total = A.make_sum([(k, 0, N - 2)], True, d2)
    assume(O.ge(total, O.mul(O.mul(1e-7, O.min2(m, 1.0)), N - 2)))
    e = raises(lambda: call(U_ + '_process_fs_and_t', real('fs') if given else None, t, N))
    ensure('rejected', e == 'Exception')


@vc('backwards rejected', U_ + '_process_fs_and_t', cases=[dict(given=g) for g in (False, True)])
def backwards(given):
    """a vector that does not increase from its first to its second entry"""
    N = dim('N', 3)
    t = arr('t', (N,))
    assume(O.le(t.at(1), t.at(0)))
    e = raises(lambda: call(U_ + '_process_fs_and_t', real('fs') if given else None, t, N))
    ensure('rejected', e in ('Exception', 'ValueError'))


@vc('stft rate', SF + 'stft', cases=[dict(deriv=d, mod=m) for d in (False, True) for m in (False, True)])
def stft_rate(deriv, mod):
    """a uniform time vector equals its rate; the transform does not depend on the rate,
    the derivative uses the differentiated window times the rate"""
    N, hop, n = dim('N', 3), dim('hop'), dim('n_fft', 2)
    assume(hop <= n)
    x = arr('x', (N,), 'float64')
    xp = arr('xp', (N + n - 1,), 'float64')
    w, dw = arr('w', (n,)), arr('dw', (n,))
    fs, t0 = real('fs'), real('t0')
    assume(fs > 0)
    given = arr('window', (n,))

    def get_window(window, win_len, n_fft=None, derivative=False, dtype=None):
        return (A.copy_arr(w), A.copy_arr(dw)) if derivative else A.copy_arr(w)
    INTERP.stubs[SF + 'get_window'] = get_window
    INTERP.stubs[SF + '_check_NOLA'] = lambda *a, **k: None
    INTERP.stubs['ssqueezepy.utils.common:padsignal'] = lambda *a, **k: A.copy_arr(xp)
    INTERP.stubs['ssqueezepy.utils.stft_utils:buffer'] = buffer_contract
    kw = dict(n_fft=n, hop_len=hop, padtype='wrap', modulated=mod, derivative=deriv, dtype='float64')
    a = call(SF + 'stft', x, given, fs=fs, **kw)
    b = call(SF + 'stft', x, given, t=times(N, t0, O.div(1.0, fs, 'raw')), **kw)
    c = call(SF + 'stft', x, given, **kw)
    a, b, c = [r if deriv else (r,) for r in (a, b, c)]
    m, k = index('m', n / 2 + 1), index('k', (N - 1) / hop + 1)
    ensure('same shapes', both(*[shape_is(r, n / 2 + 1, (N - 1) / hop + 1) for q in (a, b, c) for r in q]))
    ensure('time vector equals its rate', both(*[eq(p.at(m, k), q.at(m, k)) for p, q in zip(a, b)]))
    ensure('transform does not depend on the rate', eq(a[0].at(m, k), c[0].at(m, k)))
    if deriv:
        orig = dw
        dw = A.new_arr((n,), dw.dtype, lambda i: O.mul(orig.at(i), fs))
        d = call(SF + 'stft', x, given, **kw)
        ensure('derivative is that of the window derivative times the rate',
               eq(a[1].at(m, k), d[1].at(m, k)))



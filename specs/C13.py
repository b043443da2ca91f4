"""C13  The inverse short-time transform recovers the signal."""
from .common import *

SF = 'ssqueezepy._stft:'
U_ = 'ssqueezepy.utils.stft_utils:'


def power(v, a):
    r = 1.0
    for _ in range(a):
        r = O.mul(r, v)
    return r


def overlap(term, K, hop, n, p):
    """sum over the frames k < K that cover position p of term(p - k hop, k)"""
    k = P.bindvar('k')
    q = p - k * hop
    return A.make_sum([(k, 0, K)], both(0 <= q, q < n), term(q, k))


def sizes():
    return dim('N', 2), dim('hop'), dim('n_fft', 2)


@vc('unbuffer', U_ + 'unbuffer', U_ + '_overlap_add', cases=[dict(a=a) for a in (0, 1, 2)])
def unbuffer(a):
    N, hop, n = sizes()
    K = dim('K')
    assume((K - 1) * hop <= N - 1)               # the last frame fits
    xb, w = arr('xbuf', (n, K)), arr('window', (n,))
    b0, w0 = xb.snap(), w.snap()
    x = call(U_ + 'unbuffer', xb, w, hop, n, N, a)
    p = index('p', N + n - 1)
    ensure('length', shape_is(x, N + n - 1))
    ensure('overlap-add', eq(x.at(p), overlap(lambda q, k: O.mul(b0(q, k), power(w0(q), a)), K, hop, n, p)))
    q, k = index('q', n), index('k', K)
    ensure('inputs untouched', both(eq(xb.at(q, k), b0(q, k)), eq(w.at(q), w0(q))))


@vc('window_norm', U_ + 'window_norm', U_ + '_window_norm', cases=[dict(a=a) for a in (0, 1, 2)])
def window_norm(a):
    N, hop, n = sizes()
    w = arr('window', (n,))
    w0 = w.snap()
    wn = call(U_ + 'window_norm', w, hop, n, N, a)
    p = index('p', N + n - 1)
    K = (N - 1) / hop + 1
    ensure('length', shape_is(wn, N + n - 1))
    ensure('window norm', eq(wn.at(p), overlap(lambda q, k: power(w0(q), a + 1), K, hop, n, p)))
    ensure('input untouched', eq(w.at(index('q', n)), w0(index('q', n))))


@vc('recover', SF + 'stft', SF + 'istft', SF + 'get_window', U_ + 'buffer',
    cases=[dict(mod=m, a=a) for m in (True, False) for a in (0, 1, 2)])
def recover(mod, a):
    """istft(stft(x)) == x at every sample some shifted window covers"""
    N, hop, n = sizes()
    assume(hop <= n)                                  # no gaps
    x = arr('x', (N,), 'float64')
    w = arr('window', (n,), 'float64')
    # window values are zero or far from the denormal range
    every('window', lambda v: z3.Or(v == 0, v > 1e-200, v < -1e-200))
    x0, w0 = x.snap(), w.snap()
    xp = arr('xp', (N + n - 1,), 'float64')
    K = (N - 1) / hop + 1

    def padsignal(x, padtype=None, padlength=None, get_params=False):
        ensure('padded to every frame', eq(padlength, N + n - 1))
        return A.copy_arr(xp)                     # C01: the signal sits at n_fft//2

    def unbuffer(xbuf, window, hop_len, n_fft, N_, win_exp=1):
        q, k = index('q', n), index('k', K)
        ensure('callee arguments', both(eq(hop_len, hop), eq(n_fft, n), eq(N_, N), win_exp == a))
        ensure('frames back', both(shape_is(xbuf, n, K), shape_is(window, n)))
        ensure('each frame is the windowed segment',
               both(eq(xbuf.at(q, k), O.mul(xp.at(q + k * hop), w0(q))), eq(window.at(q), w0(q))))
        return A.new_arr((N + n - 1,), A.as_dtype('float64'), lambda p: overlap(
            lambda q, k: O.mul(O.mul(xp.at(q + k * hop), w0(q)), power(w0(q), a)), K, hop, n, p))

    def window_norm(window, hop_len, n_fft, N_, win_exp=1):
        ensure('callee arguments', both(eq(hop_len, hop), eq(n_fft, n), eq(N_, N), win_exp == a))
        return A.new_arr((N + n - 1,), A.as_dtype('float64'), lambda p: overlap(
            lambda q, k: power(w0(q), a + 1), K, hop, n, p))

    INTERP.stubs[SF + '_check_NOLA'] = lambda *a, **k: None
    INTERP.stubs['ssqueezepy.utils.common:padsignal'] = padsignal
    INTERP.stubs[U_ + 'buffer'] = buffer_contract
    INTERP.stubs[U_ + 'unbuffer'] = unbuffer
    INTERP.stubs[U_ + 'window_norm'] = window_norm
    S = call(SF + 'stft', x, w, n_fft=n, hop_len=hop, modulated=mod, dtype='float64')
    j = index('j', N)
    assume(eq(xp.at(j + n / 2), x0(j)))
    p = j + n / 2
    assume(overlap(lambda q, k: power(w0(q), a + 1), K, hop, n, p) > 1e-200)
    ensure('rows and columns', shape_is(S, n / 2 + 1, K))
    r = call(SF + 'istft', S, w, n_fft=n, hop_len=hop, N=N, modulated=mod, win_exp=a)
    ensure('length', shape_is(r, N))
    wn = overlap(lambda q, k: power(w0(q), a + 1), K, hop, n, p)
    ensure('overlap-add of the windowed segments', eq(
        overlap(lambda q, k: O.mul(O.mul(xp.at(q + k * hop), w0(q)), power(w0(q), a)), K, hop, n, p),
        O.mul(x0(j), wn)))
    ensure('recovered', eq(r.at(j), x0(j)))

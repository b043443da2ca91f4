"""C12  Framing: buffer segments are exact copies at every hop."""
from .common import *

U_ = 'ssqueezepy.utils.stft_utils:'


@vc('buffer', U_ + 'buffer', U_ + '_buffer', U_ + '_buffer_par',
    cases=[dict(mod=m, par=p, batch=b) for m in (False, True) for p in (False, True)
           for b in (False, True)])
def buffer(mod, par, batch):
    L, hop, n = dim('L'), dim('hop'), dim('n')
    assume(n <= L)
    assume(hop <= n)
    B = dim('B')
    x = arr('x', (B, L) if batch else (L,))
    x0 = x.snap()
    y = call(U_ + 'buffer', x, n, n - hop, mod, par)
    K = y.shape[-1]
    b, q, k = index('b', B), index('q', n), index('k', K)
    pre = (b,) if batch else ()
    ensure('shape', shape_is(y, *((B,) if batch else ()), n, K))
    ensure('segments are every hop that fits', both((zi(K) - 1) * hop + n <= L, zi(K) * hop + n > L))
    pos = q + k * hop
    if mod:
        # modulated: rotated so that the centre of the segment comes first
        half = n / 2 if False else z3.If(n % 2 == 1, (n - 1) / 2, n / 2)   # floor(n/2)
        pos = k * hop + z3.If(q + half < n, q + half, q + half - n)
    ensure('samples', eq(y.at(*pre, q, k), x0(*pre, pos)))


SF = 'ssqueezepy._stft:'


@vc('stft', SF + 'stft', U_ + 'buffer', cases=[
    dict(mod=m, batch=b, deriv=d) for m in (True, False) for b in (False, True)
    for d in (False, True)])
def stft(mod, batch, deriv):
    """column k is the DFT of the k-th segment times the window (centred if modulated)"""
    N, hop, n = dim('N', 2), dim('hop'), dim('n_fft', 2)
    assume(hop <= n)
    B = dim('B', 2)
    x = arr('x', (B, N) if batch else (N,), 'float64')
    x0 = x.snap()
    xp = arr('xp', (B, N + n - 1) if batch else (N + n - 1,), 'float64')
    w, dw = arr('w', (n,)), arr('dw', (n,))
    fs = real('fs')
    assume(fs > 0)
    given = arr('window', (n,))

    def get_window(window, win_len, n_fft=None, derivative=False, dtype=None):
        ensure('window request', both(window is given, eq(win_len, n), eq(n_fft, n)))
        return (A.copy_arr(w), A.copy_arr(dw)) if derivative else A.copy_arr(w)

    def padsignal(x_, padtype=None, padlength=None, get_params=False):
        ensure('padded to every frame', both(eq(padlength, N + n - 1), padtype == 'wrap'))
        return A.copy_arr(xp)
    INTERP.stubs[SF + 'get_window'] = get_window
    INTERP.stubs[SF + '_check_NOLA'] = lambda *a, **k: None
    INTERP.stubs['ssqueezepy.utils.common:padsignal'] = padsignal
    INTERP.stubs[U_ + 'buffer'] = buffer_contract
    S = call(SF + 'stft', x, given, n_fft=n, hop_len=hop, fs=fs, padtype='wrap', modulated=mod,
             derivative=deriv, dtype='float64')
    K = (N - 1) / hop + 1
    b, m, k = index('b', B), index('m', n / 2 + 1), index('k', K)
    pre = (b,) if batch else ()
    h = n / 2
    rot = (lambda q: z3.If(q + h < n, q + h, q + h - n)) if mod else (lambda q: q)

    def spectrum(v):
        """rfft over the segment of samples times v"""
        q = P.bindvar('q')
        body = [zr(O.mul(xp.at(*pre, k * hop + rot(q)), v(rot(q)))), z3.RealVal(0)]
        ex = [zi(m), zi(n / 2 + 1)]
        return Cx(P.functional('rfft.re', [(q, 0, n)], body, P.R, '', ex),
                  P.functional('rfft.im', [(q, 0, n)], body, P.R, '', ex))
    out = S if deriv else (S,)
    for s in out:
        ensure('rows and columns', shape_is(s, *((B,) if batch else ()), n / 2 + 1, K))
    ensure('transform of the windowed segment', eq(out[0].at(*pre, m, k), spectrum(w.at)))
    if deriv:
        ensure('derivative uses the differentiated window times fs',
               eq(out[1].at(*pre, m, k), spectrum(lambda q: O.mul(dw.at(q), fs))))
    j = index('j', N)
    ensure('input untouched', eq(x.at(*pre, j), x0(*pre, j)))


@vc('get_window', SF + 'get_window', 'ssqueezepy.wavelets:_xifn',
    cases=[dict(deriv=d, full=f) for d in (False, True) for f in (False, True)])
def get_window(deriv, full):
    """a given window, centred in n_fft samples; its derivative in the frequency domain"""
    L = dim('win_len', 2)
    n = L if full else dim('n_fft', 2)
    if not full:
        assume(L < n)
    w = arr('window', (L,), 'float64')
    every('window', lambda v: z3.Or(v == 0, v > 1e-200, v < -1e-200))
    w0 = w.snap()
    r = call(SF + 'get_window', w, L, n, derivative=deriv, dtype='float64')
    win = r[0] if deriv else r
    q = index('q', n)
    left = (n - L) / 2
    ensure('length', shape_is(win, n))
    ensure('centred and zero-padded', eq(win.at(q), ite(both(left <= q, q < left + L), w0(q - left), 0.0)))
    ensure('input untouched', eq(w.at(index('i', L)), w0(index('i', L))))
    if deriv:
        ensure('length of the derivative', shape_is(r[1], n))
        # real part of the inverse DFT of i * omega * DFT(window), no Nyquist term
        wx = lambda v: ite(both(left <= v, v < left + L), w0(v - left), 0.0)

        def F(f):
            v = P.bindvar('v')
            body, ex = [zr(wx(v)), z3.RealVal(0)], [f, n]
            return Cx(P.functional('fft.re', [(v, 0, n)], body, P.R, '', ex),
                      P.functional('fft.im', [(v, 0, n)], body, P.R, '', ex))

        def xi(f):
            k = z3.If(2 * f > n, f - n, f)
            return z3.If(2 * f == n, z3.RealVal(0), O.mul(z3.ToReal(k), O.div(TWO_PI, n)))
        f = P.bindvar('f')
        t = O.mul(Cx(0.0, xi(f)), F(f))
        D = P.functional('ifft.re', [(f, 0, n)], [zr(t.re), zr(t.im)], P.R, '', [q, n])
        got = r[1].at(q)
        ensure('differentiated window', either(eq(got, D), both(eq(got, 0), D < 1e-200, D > -1e-200)))


@vc('get_window rejects', SF + 'get_window')
def rejects():
    L, n = dim('win_len'), dim('n_fft')
    assume(L > n)
    e = raises(lambda: call(SF + 'get_window', arr('window', (L,)), L, n))
    ensure('rejected', e == 'ValueError')

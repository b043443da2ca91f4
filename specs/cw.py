"""Contract of cwt, shared by C08, C09, C10 and C22.

The wavelet is an arbitrary function of frequency; padsignal (C01) and
process_scales (C17) are replaced by their contracts."""
from .common import *

CW = 'ssqueezepy._cwt:'
PSI = lambda w: P.uf('psi', P.R, P.R)(zr(w))


class Setup:
    pass


def psi_array(w):
    s = w.snap()
    return A.new_arr(w.shape, w.dtype, lambda *i: PSI(s(*i)))


def custom_wavelet(N=1024):
    f = user_function('lambda w: psi_(w)', psi_=psi_array)
    return call('ssqueezepy.wavelets:Wavelet', f, N)


def freq(k, N):
    """2 pi k / N, negative beyond half the length"""
    k = zi(k)
    return O.mul(z3.ToReal(z3.If(k <= zi(N) / 2, k, k - zi(N))), O.div(TWO_PI, N))


def cwt_case(pad='reflect', batch=False, deriv=False, vec=True, cache=None, rpadded=False, l1=True,
             x=None):
    s = Setup()
    s.N, s.M, s.B = dim('N', 2), dim('M', 2), dim('B', 2)
    s.batch, s.deriv = batch, deriv
    s.x = arr('x', (s.B, s.N) if batch else (s.N,), 'float64') if x is None else x
    s.scales = arr('scales', (s.M,))
    every('scales', lambda v: v > 0)
    s.fs = real('fs')
    assume(s.fs > 0)
    s.wavelet = custom_wavelet()
    if pad is None:
        s.L, s.n1 = s.N, 0
        s.xp = s.x
    else:
        s.n1, s.n2 = dim('n1', 0), dim('n2', 0)
        s.L = O.add(s.N, O.add(s.n1, s.n2))
        s.xp = arr('xp', (s.B, s.L) if batch else (s.L,), 'float64')

    def padsignal(x_, padtype='reflect', padlength=None, get_params=False):
        ensure('padding requested', both(padtype == pad, padlength is None, get_params is True))
        return A.copy_arr(s.xp), s.L, s.n1, s.n2
    INTERP.stubs['ssqueezepy.utils.common:padsignal'] = padsignal

    def process_scales(scales, N, wavelet=None, nv=None, get_params=False, **kw):
        ensure('scales handed on', both(scales is s.scales, eq(N, s.N)))
        return A.new_arr((s.M, 1), A.as_dtype("float64"), lambda i, z: s.sc(i))
    INTERP.stubs['ssqueezepy.utils.cwt_utils:process_scales'] = process_scales
    s.kw = dict(scales=s.scales, fs=s.fs, padtype=pad, derivative=deriv, vectorized=vec,
                cache_wavelet=cache, rpadded=rpadded, l1_norm=l1, nan_checks=False)
    sc, xp = s.scales.snap(), s.xp.snap()
    L = s.L
    s.sc, s.x0 = sc, s.x.snap()
    s.cols = s.N if (pad is None or not rpadded) else s.L
    off = 0 if rpadded else s.n1

    def filt(a, k):
        """the wavelet at one scale on the grid of the padded length, Nyquist halved"""
        v = PSI(O.mul(a, freq(k, L)))
        return ite(both(zi(L) % 2 == 0, eq(k, zi(L) / 2)), O.div(v, 2.0), v)

    def value(i, j, b=None, d=False):
        k, q = P.bindvar('k'), P.bindvar('q')
        pre = (b,) if batch else ()
        body = [zr(xp(*pre, q)), z3.RealVal(0)]
        X = Cx(P.functional('fft.re', [(q, 0, L)], body, P.R, '', [k, zi(L)]),
               P.functional('fft.im', [(q, 0, L)], body, P.R, '', [k, zi(L)]))
        t = O.mul(X, filt(sc(i), k))
        if d:
            t = O.mul(t, Cx(0.0, O.mul(freq(k, L), s.fs)))
        t = lift_cx(t)
        p = O.add(j, off)
        r = Cx(P.functional('ifft.re', [(k, 0, L)], [zr(t.re), zr(t.im)], P.R, '', [zi(p), zi(L)]),
               P.functional('ifft.im', [(k, 0, L)], [zr(t.re), zr(t.im)], P.R, '', [zi(p), zi(L)]))
        if not l1:
            r = O.mul(r, O.sqrt(sc(i)))
        return r
    s.value = value
    return s


def run(s, **kw):
    return call(CW + 'cwt', s.x, s.wavelet, **dict(s.kw, **kw))

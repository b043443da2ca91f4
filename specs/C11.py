"""C11  Inverse wavelet transform: weights per scale spacing, constants, mean, cropping, linearity.

process_scales (C17), logscale_transition_idx (C18), padsignal (C01) and the admissibility
integrals are replaced by contracts; the integrands of the latter are verified here."""
from .common import *
from .cw import CW, PSI, custom_wavelet, freq

U_ = 'ssqueezepy.utils.'
CU = U_ + 'cwt_utils:'
LN2 = 0.6931471805599453
KINDS = dict(log='log', lin='linear', piecewise='log-piecewise')


class Setup:
    pass


def inv_case(kind='log', l1=True, one=True, batch=False, rpadded=False, xlen=False, mean='scalar'):
    s = Setup()
    s.M = dim('M', 4 if kind == 'piecewise' else 2)
    s.n, s.B = dim('n', 2), dim('B', 2)
    s.kind, s.l1, s.one, s.batch, s.rpadded = kind, l1, one, batch, rpadded
    s.N = s.n
    if xlen:
        s.N = dim('N', 2)
        if rpadded:
            assume(s.N <= s.n)
    s.W = arr('Wx', (s.B, s.M, s.n) if batch else (s.M, s.n), 'complex128')
    s.scales = arr('scales', (s.M,))
    every('scales', lambda v: v > 0)
    s.wavelet = custom_wavelet()
    s.C = real('Cpsi')
    assume(s.C > 0)
    s.mean = {'scalar': real('x_mean'), 'zero': 0, 'vector': arr('x_mean', (s.B,))}[mean]
    s.idx = integer('idx', 2, O.sub(s.M, 1)) if kind == 'piecewise' else s.M
    if kind == 'piecewise':
        assume(s.scales.at(0) < s.scales.at(s.idx))
    s.nv = [real('nv0'), real('nv1')]
    for v in s.nv:
        assume(v > 0)
    s.sc, s.W0 = s.scales.snap(), s.W.snap()
    first = dim('up', 1)

    def process_scales(scales, N, wavelet=None, nv=None, get_params=False, **kw):
        ensure('length and wavelet handed on', both(eq(N, s.N), wavelet is s.wavelet, get_params is True))
        v = O.as_array(scales) if not isarr(scales) else scales
        col = lambda: A.new_arr((v.shape[0], 1), A.as_dtype('float64'), lambda i, z: w(i))
        w0 = v.snap()
        w = (lambda i: w0(i, 0)) if v.ndim == 2 else w0
        if scales is s.scales:
            return col(), KINDS[kind], v.shape[0], None if kind != 'log' else s.nv[0]
        # a piece of two-slope scales
        ensure('voices inferred from the piece', nv is None)
        k = index('any', v.shape[0])
        n = v.shape[0]
        if ctx.branch(zb(eq(n, s.idx))) and ctx.branch(zb(eq(w(0), s.sc(0)))):
            ensure('first piece', eq(w(k), s.sc(k)))
            return col(), 'log', n, s.nv[0]
        ensure('second piece', both(eq(n, O.sub(s.M, s.idx)), eq(w(k), s.sc(O.add(k, s.idx)))))
        return col(), 'log', n, s.nv[1]

    def transition(v):
        ensure('all scales', eq(v.shape[0], s.M))
        return s.idx

    def admissible(name):
        def f(wavelet):
            ensure('constant of the formula', both(name == ('adm_ssq' if one else 'adm_cwt'),
                                                   wavelet is s.wavelet))
            return s.C
        return f
    INTERP.stubs[CU + 'process_scales'] = process_scales
    INTERP.stubs[CU + 'logscale_transition_idx'] = transition
    for a in ('adm_ssq', 'adm_cwt'):
        INTERP.stubs[CU + a] = admissible(a)
    s.kw = dict(scales=s.scales, one_int=one, x_mean=s.mean, rpadded=rpadded, l1_norm=l1)
    if xlen:
        s.kw['x_len'] = s.N
    return s


def weight(s, i, piece=0):
    a = s.sc(i)
    if s.kind == 'lin':
        w = O.div(s_const(s, 0.7853981633974483), a if s.l1 else O.mul(a, O.sqrt(a)), 'raw')
    else:
        w = s_const(s, O.div(LN2, s.nv[piece], 'raw'))
        w = w if s.l1 else O.div(w, O.sqrt(a), 'raw')
    return w


def s_const(s, c):
    return O.mul(O.div(2.0, s.C, 'raw'), c)


def mean_of(s, b):
    return s.mean.at(b) if isarr(s.mean) else s.mean


ONE = [dict(kind=k, l1=l) for k in ('log', 'lin', 'piecewise') for l in (True, False)]
CASES = [dict(c, mean=m) for c in ONE for m in ('scalar', 'zero')] + \
    [dict(c, batch=True, mean=m) for c in ONE for m in ('scalar', 'vector')]


def closed(s, b, j, W=None):
    """sum over rows of the real part times the weight"""
    W = W or s.W0
    pre = (b,) if s.batch else ()

    def part(first, n, piece):
        i = P.bindvar('i')
        r = O.add(i, first)
        val = O.mul(lift_cx(W(*pre, r, j)).re, weight(s, r, piece))
        return A.make_sum([(i, 0, n)], True, val)
    if s.kind == 'piecewise':
        return O.add(part(0, s.idx, 0), part(s.idx, O.sub(s.M, s.idx), 1))
    return part(0, s.M, 0)


@vc('one integral', CW + 'icwt', CW + '_icwt_1int', CW + '_icwt_norm', cases=CASES, timeout=20000)
def one_integral(**case):
    s = inv_case(**case)
    x = call(CW + 'icwt', s.W, s.wavelet, **s.kw)
    j, b = index('j', s.n), index('b', s.B)
    pre = (b,) if s.batch else ()
    ensure('one value per time', shape_is(x, *((s.B, s.n) if s.batch else (s.n,))))
    ensure('weighted sum and mean once', eq(x.at(*pre, j), O.add(closed(s, b, j), mean_of(s, b))))
    ensure('transform kept', both(eq(s.W.at(*pre, 0, j), s.W0(*pre, 0, j)), eq(s.scales.at(0), s.sc(0))))


@vc('linear', CW + 'icwt', CW + '_icwt_1int', cases=[dict(c, batch=b) for c in ONE for b in (False, True)], timeout=20000)
def linear(**case):
    """the inverse of a combination is the combination of the inverses; the mean of each row is added once"""
    s = inv_case(mean='scalar', **case)
    a, b = real('a'), real('b')
    V = arr('V', s.W.shape, 'complex128')
    V0 = V.snap()
    U = A.new_arr(s.W.shape, A.as_dtype('complex128'), lambda *i: O.add(O.mul(a, s.W0(*i)), O.mul(b, V0(*i))))
    kw = dict(s.kw, x_mean=0)
    x, y, z = (call(CW + 'icwt', X, s.wavelet, **kw) for X in (s.W, V, U))
    m = call(CW + 'icwt', s.W, s.wavelet, **s.kw)
    i = [index('b', s.B)] if s.batch else []
    i.append(index('j', s.n))
    ensure('linear', eq(z.at(*i), O.add(O.mul(a, x.at(*i)), O.mul(b, y.at(*i)))))
    ensure('mean once', eq(m.at(*i), O.add(x.at(*i), s.mean)))


@vc('two integrals', CW + 'icwt', CW + '_icwt_2int', CW + '_icwt_norm', 'ssqueezepy.wavelets:Wavelet.__call__',
    cases=[dict(kind=k, l1=l, rpadded=r, xlen=x) for k in ('log', 'lin') for l in (True, False)
           for r, x in ((False, False), (True, True), (True, False))] +
    [dict(kind='piecewise', l1=l, rpadded=True, xlen=True) for l in (True, False)], timeout=30000)
def two_integrals(rpadded, **case):
    """double integral on padded transforms, cropped to the signal"""
    s = inv_case(one=False, rpadded=rpadded, **case)
    if rpadded:
        s.L, s.W2 = s.n, s.W0
        s.n1 = integer('n1', 0)
        assume(O.le(O.add(s.n1, s.N), s.L))

        def p2up(n):
            ensure('length of the signal', eq(n, s.N))
            return s.L, s.n1, O.sub(O.sub(s.L, s.N), s.n1)
        INTERP.stubs[U_ + 'common:p2up'] = p2up
        off = ite(O.gt(s.n, s.N), s.n1, 0) if case['xlen'] else 0
    else:
        s.n1, n2 = dim('n1', 0), dim('n2', 0)
        s.L = O.add(s.n, O.add(s.n1, n2))
        P_ = arr('Wp', (s.M, s.L), 'complex128')
        s.W2 = P_.snap()

        def padsignal(x_, padtype='reflect', padlength=None, get_params=False):
            ensure('padding requested', both(x_ is s.W, padtype == 'reflect', padlength is None, get_params is True))
            return A.copy_arr(P_), s.L, s.n1, n2
        INTERP.stubs[U_ + 'common:padsignal'] = padsignal
        off = s.n1
    x = call(CW + 'icwt', s.W, s.wavelet, **s.kw)
    j = index('j', s.N)
    ensure('one value per time', shape_is(x, s.N))
    k, q = P.bindvar('k'), P.bindvar('q')
    L = s.L
    p = O.add(j, off)
    # ifftshift: the cell of index 0 goes to the middle
    h = zi(L) / 2
    p = ite(zi(p) + h < zi(L), zi(p) + h, zi(p) + h - zi(L))

    def part(first, n, piece):
        i = P.bindvar('i')
        r = O.add(i, first)
        c = lift_cx(s.W2(r, q))
        body = [zr(c.re), zr(c.im)]
        X = Cx(P.functional('fft.re', [(q, 0, L)], body, P.R, '', [k, zi(L)]),
               P.functional('fft.im', [(q, 0, L)], body, P.R, '', [k, zi(L)]))
        t = lift_cx(O.mul(X, O.mul(PSI(O.mul(s.sc(r), freq(k, L))), ite(k % 2 == 0, 1, -1))))
        val = P.functional('ifft.re', [(k, 0, L)], [zr(t.re), zr(t.im)], P.R, '', [zi(p), zi(L)])
        return A.make_sum([(i, 0, n)], True, O.mul(val, weight(s, r, piece)))
    tot = part(0, s.idx, 0)
    if s.kind == 'piecewise':
        tot = O.add(tot, part(s.idx, O.sub(s.M, s.idx), 1))
    ensure('double integral', eq(x.at(j), O.add(tot, s.mean)))


@vc('admissibility', CU + 'adm_ssq', CU + 'adm_cwt', cases=[dict(name=n) for n in ('adm_ssq', 'adm_cwt')])
def admissibility(name):
    """integrands of the constants; numeric integration is not modelled"""
    res, seen = real('integral'), []

    def integrate(fn):
        w = arr('w', (dim('n', 1),))
        every('w', lambda v: v > 0)
        y = fn(w)
        k = index('k', w.shape[0])
        v = PSI(w.at(k))
        if name == 'adm_cwt':
            v = O.mul(v, v)
        seen.append(1)
        ensure('integrand', eq(y.at(k), O.div(v, w.at(k), 'raw')))
        return Cx(res, 0.0)
    INTERP.stubs[CU + 'integrate_analytic'] = integrate
    r = call(CU + name, custom_wavelet())
    ensure('integral', both(len(seen) == 1, eq(r, res)))

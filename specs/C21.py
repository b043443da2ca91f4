"""C21  Built-in wavelets: published formulas, analyticity, zero mean, peak value, scaling.

exp, log, powers and gamma functions are uninterpreted, with the identities used stated here;
parameters, frequencies and constants are exact reals."""
from math import pi
from .common import *
from .cw import custom_wavelet, PSI, freq

WV = 'ssqueezepy.wavelets:'
GM = 'ssqueezepy._gmw:'
EXP = lambda x: O.exp_(x)


def parallel(flag):
    INTERP.stubs['ssqueezepy.configs:IS_PARALLEL'] = lambda: flag


def grid():
    """frequencies: any real numbers"""
    return arr('w', (dim('n', 1),), 'float64')


def evaluate(fn, w):
    w0 = w.snap()
    y = call(fn, w) if not callable(fn) else fn(w)
    k = index('k', w.shape[0])
    ensure('one value per frequency', shape_is(y, w.shape[0]))
    ensure('frequencies kept', eq(w.at(k), w0(k)))
    return y.at(k), w0(k), k


def neg(c):
    return b_not(c)


def near(a, b):
    """equal up to rounding of the constants of the formula"""
    d, e = O.sub(a, b), O.mul(1e-12, b)
    return either(both(O.ge(b, 0.0), O.le(d, e), O.ge(d, O.neg(e))), both(O.lt(b, 0.0), O.ge(d, e), O.le(d, O.neg(e))))


PAR = [dict(par=p) for p in (False, True)]


@vc('morlet', WV + 'morlet', WV + '_morlet', WV + '_morlet_par', WV + 'Wavelet.__call__', cases=PAR)
def morlet(par):
    parallel(par)
    mu = real('mu')
    assume(mu > 0)
    m2 = O.mul(mu, mu)
    ks = EXP(O.mul(-.5, m2))
    norm = O.sub(O.add(1.0, EXP(O.neg(m2))), O.mul(2.0, EXP(O.mul(-.75, m2))))
    assume(O.sqrt(norm) > 0)        # 1 + e^-m^2 > 2 e^-3/4m^2 for every m > 0
    wt = call(WV + 'Wavelet', ('morlet', {'mu': mu, 'dtype': 'float64'}))
    v, w, k = evaluate(wt, grid())
    e = O.sub(EXP(O.mul(-.5, O.mul(O.sub(w, mu), O.sub(w, mu)))), O.mul(ks, EXP(O.mul(-.5, O.mul(w, w)))))
    ensure('formula', near(v, O.mul(O.div(2 ** .5 * pi ** .25, O.sqrt(norm)), e)))
    ensure('zero mean', either(O.ne(w, 0.0), eq(v, 0.0)))
    # at negative frequencies: at most the value of e^(-m^2/2), times the constant
    if ctx.branch(zb(O.le(w, 0.0))):
        ensure('exponents', both(O.le(O.mul(-.5, O.mul(O.sub(w, mu), O.sub(w, mu))), O.mul(-.5, m2)),
                                 O.le(O.mul(-.5, O.mul(w, w)), 0.0)))
        f = EXP(O.mul(-.5, O.mul(w, w)))
        ensure('factors', both(0 < f, f <= 1, O.le(O.mul(ks, f), ks), O.ge(O.mul(ks, f), 0.0)))
        ensure('negligible at negative frequencies', both(O.le(e, ks), O.ge(e, O.neg(ks))))


@vc('cmhat', WV + 'cmhat', WV + '_cmhat', WV + '_cmhat_par', WV + 'Wavelet.__call__', cases=PAR)
def cmhat(par):
    parallel(par)
    mu, sg = real('mu'), real('sigma')
    assume(sg > 0)
    v, w, k = evaluate(call(WV + 'Wavelet', ('cmhat', {'mu': mu, 's': sg, 'dtype': 'float64'})), grid())
    u = O.sub(w, mu)
    q = O.mul(O.mul(sg, sg), O.mul(u, u))
    K = 2 * (2 / 3) ** .5 * pi ** -.25
    f = O.mul(O.mul(K, O.mul(O.mul(O.mul(sg, sg), O.sqrt(sg)), O.mul(u, u))), EXP(O.mul(-.5, q)))
    ensure('formula', either(O.lt(u, 0.0), near(v, f)))
    ensure('analytic about its shift', either(O.gt(u, 0.0), eq(v, 0.0)))


@vc('hhhat', WV + 'hhhat', WV + '_hhhat', WV + '_hhhat_par', WV + 'Wavelet.__call__', cases=PAR)
def hhhat(par):
    parallel(par)
    mu = real('mu')
    v, w, k = evaluate(call(WV + 'Wavelet', ('hhhat', {'mu': mu, 'dtype': 'float64'})), grid())
    u = O.sub(w, mu)
    K = 2 * 5 ** -.5 * pi ** -.25
    f = O.mul(O.mul(2 * K, O.mul(u, O.add(1.0, u))), EXP(O.mul(-.5, O.mul(u, u))))
    ensure('formula', either(O.le(u, 0.0), near(v, f)))
    ensure('analytic about its shift', either(O.gt(u, 0.0), eq(v, 0.0)))


@vc('bump', WV + 'bump', WV + '_bump', WV + '_bump_par', WV + 'Wavelet.__call__', cases=PAR)
def bump(par):
    parallel(par)
    mu, sg = real('mu'), real('sigma')
    assume(sg > 0)
    fn = call(WV + 'bump', mu=mu, s=sg, om=0, dtype='float64')
    v, w, k = evaluate(fn, grid())
    v = lift_cx(v)
    u = O.div(O.sub(w, mu), sg, 'raw')
    on = both(O.lt(u, .999), O.lt(-.999, u))
    f = O.div(EXP(O.div(-1.0, O.sub(1.0, O.mul(u, u)), 'raw')), O.mul(sg, .443993816053287), 'raw')
    ensure('real', eq(v.im, 0.0))
    ensure('formula', either(neg(on), near(v.re, f)))
    ensure('compact support', either(on, eq(v.re, 0.0)))


def morse(par, centered, norm, order=0):
    parallel(par)
    g, b = real('gamma'), real('beta')
    assume(both(g > 0, b > 0))
    wc = O.pow_(O.div(b, g, 'raw'), O.div(1.0, g, 'raw'))
    assume(wc > 0)
    fn = call(GM + 'gmw', g, b, norm, order, centered, 'float64')
    v, w, k = evaluate(fn, grid())
    if centered:
        w = O.mul(w, wc)
    return g, b, wc, v, w


GMW = [dict(par=p, centered=c) for p in (False, True) for c in (False, True)]


@vc('gmw bandpass', GM + 'gmw', GM + 'gmw_l1', GM + '_gmw_l1', GM + '_gmw_l1_par', GM + 'morsefreq', cases=GMW)
def gmw_l1(par, centered):
    g, b, wc, v, w = morse(par, centered, 'bandpass')
    L = lambda x: O.log_('log', x)
    P_ = lambda x: O.pow_(x, g)
    if ctx.branch(zb(O.le(w, 0.0))):
        ensure('analytic', eq(v, 0.0))
        return
    a = O.sub(O.mul(b, O.sub(L(w), L(wc))), O.sub(P_(w), P_(wc)))
    ensure('formula', eq(v, O.mul(2.0, EXP(a))))
    # logarithms of powers; ln y <= y - 1
    r = O.div(b, g, 'raw')
    lw, lc = L(P_(w)), L(P_(wc))
    assume(both(eq(lw, O.mul(g, L(w))), eq(lc, O.mul(g, L(wc))), eq(P_(wc), r)))
    y = O.div(P_(w), P_(wc), 'raw')
    assume(both(eq(L(y), O.sub(lw, lc)), O.le(L(y), O.sub(y, 1.0))))
    ensure('exponent', O.le(a, 0.0))
    ensure('at most two', O.le(v, 2.0))
    ensure('two at the centre frequency', either(O.ne(w, wc), eq(v, 2.0)))


def special(x):
    """gamma function"""
    return P.uf('gamma', P.R, P.R)(zr(x))


@vc('gmw energy', GM + 'gmw', GM + 'gmw_l2', GM + '_gmw_l2', GM + '_gmw_l2_par', cases=GMW)
def gmw_l2(par, centered):
    g, b, wc, v, w = morse(par, centered, 'energy')
    if ctx.branch(zb(O.le(w, 0.0))):
        ensure('analytic', eq(v, 0.0))
        return
    r = O.div(O.add(O.mul(2.0, b), 1.0), g, 'raw')
    K = O.sqrt(O.div(O.mul(O.mul(2 * pi, g), O.pow_(2.0, r)), special(r), 'raw'))
    ensure('formula', eq(v, O.mul(K, EXP(O.sub(O.mul(b, O.log_('log', w)), O.pow_(w, g))))))


def lgamma_facts(r, k):
    """gammaln(x + 1) = log x + gammaln(x); logarithms of products"""
    G = lambda x: P.uf('gammaln', P.R, P.R)(zr(x))
    L = lambda x: O.log_('log', x)
    for m in range(k + 1):
        x = O.add(r, m)
        assume(eq(G(O.add(r, m + 1)), O.add(L(x), G(x))))
    return G, L


def math_lgamma(n):
    from math import lgamma
    return lgamma(n)


@vc('gmw orders', GM + 'gmw', GM + '_gmw_k_constants', GM + 'gmw_l1_k', GM + 'gmw_l2_k', GM + '_gmw_l1_k',
    GM + '_gmw_l1_k_par', GM + '_gmw_l2_k', GM + '_gmw_l2_k_par',
    cases=[dict(par=p, centered=c, norm=n, order=k) for k in (1, 2) for n in ('bandpass', 'energy')
           for p, c in ((False, False), (True, True))])
def orders(par, centered, norm, order):
    k = order
    g, b, wc, v, w = morse(par, centered, norm, order)
    if ctx.branch(zb(O.le(w, 0.0))):
        ensure('analytic', eq(v, 0.0))
        return
    r = O.div(O.add(O.mul(2.0, b), 1.0), g, 'raw')
    ensure('signs', both(r > 0, w > 0))
    if isinstance(v, Ext):
        ensure('finite', neg(b_or(v.pinf, v.ninf, v.nan)))
        v = v.val
    G, L = lgamma_facts(r, k)
    x = O.mul(2.0, O.pow_(w, g))
    from math import factorial

    def known(val, *logs):
        """exp of its logarithm, which is the given sum, is the value"""
        t = 0.0
        for u in logs:
            t = O.add(t, u)
        assume(both(eq(L(val), t), eq(EXP(L(val)), val)))
        return L(val)
    poly = 0.0
    for m in range(k + 1):
        c = O.div(1.0, float(factorial(k - m)), 'raw')
        for j in range(m, k):
            c = O.mul(c, O.add(r, j))
        if m < k:
            known(c, -math_lgamma(k - m + 1), *[L(O.add(r, j)) for j in range(m, k)])
        # the form in which the code evaluates it
        arg = O.sub(O.sub(G(O.add(O.add(k, O.sub(r, 1.0)), 1.0)), G(O.add(O.add(O.sub(r, 1.0), m), 1.0))),
                    math_lgamma(k - m + 1))
        ensure('exponent', eq(arg, L(c) if m < k else 0.0))
        ensure('coefficient', eq(EXP(arg), c))
        poly = O.add(poly, O.mul(O.mul((-1) ** m / factorial(m), c), O.pow_(x, m)))
    d = 1.0
    for j in range(k):
        d = O.mul(d, O.add(r, j))
    q = O.div(float(factorial(k)), d, 'raw')
    lq = known(q, math_lgamma(k + 1), *[O.neg(L(O.add(r, j))) for j in range(k)])
    a = O.sub(O.mul(b, O.log_('log', w)), O.pow_(w, g))
    if norm == 'bandpass':
        arg = O.sub(O.add(G(r), math_lgamma(k + 1)), G(O.add(k, r)))
        ensure('exponent', eq(arg, lq))
        ensure('coefficient', eq(EXP(arg), q))
        K = O.mul(2.0, O.sqrt(q))
        a = O.add(a, O.sub(O.pow_(wc, g), O.mul(b, L(wc))))
    else:
        q = O.div(q, special(r), 'raw')
        lq = known(q, lq, O.neg(G(r)))
        arg = O.sub(math_lgamma(k + 1), G(O.add(k, r)))
        ensure('exponent', eq(arg, lq))
        ensure('coefficient', eq(EXP(arg), q))
        K = O.sqrt(O.mul(O.mul(O.mul(2 * pi, g), O.pow_(2.0, r)), q))
    ensure('formula', eq(v, O.mul(O.mul(K, poly), EXP(a))))


@vc('scaled', WV + 'Wavelet.__call__', WV + 'Wavelet.xifn', WV + '_xifn', cases=[
    dict(nohalf=h, kind=k) for h in (True, False) for k in ('scalar', 'vector', 'column')])
def scaled(nohalf, kind):
    """evaluation at a scale: the wavelet of scale times frequency; the Nyquist bin of a filter halved"""
    N, M = dim('N', 2), dim('M', 2)
    wt = custom_wavelet()
    a = {'scalar': real('a'), 'vector': arr('a', (M,)), 'column': arr('a', (M, 1))}[kind]
    if kind == 'scalar':
        assume(a > 0)
    else:
        every('a', lambda v: v > 0)
    s0 = a if kind == 'scalar' else a.snap()
    y = call(wt, scale=a, N=N, nohalf=nohalf)
    i, k = index('i', M), index('k', N)
    v = PSI(O.mul(s0 if kind == 'scalar' else s0(i) if kind == 'vector' else s0(i, 0), freq(k, N)))
    if not nohalf:
        v = ite(both(zi(N) % 2 == 0, eq(k, zi(N) / 2)), O.div(v, 2.0), v)
    ensure('shape', shape_is(y, *((N,) if kind == 'scalar' else (M, N))))
    ensure('scale times frequency', eq(y.at(*(() if kind == 'scalar' else (i,)), k), v))

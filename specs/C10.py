"""C10  Wavelet transform = filtering by the sampled wavelet at each scale."""
from .common import *
from . import cw
from .cw import CW


@vc('cwt', CW + 'cwt', 'ssqueezepy.wavelets:Wavelet.__call__', 'ssqueezepy.wavelets:Wavelet._halve_nyquist',
    cases=[dict(pad=p, batch=b, deriv=d, vec=v) for p in ('reflect', None) for b in (False, True)
           for d in (False, True) for v in (True, False)] +
    [dict(pad='wrap', rpadded=r, l1=l, deriv=True, vec=v, batch=b) for r in (False, True)
     for l in (False, True) for v in (False, True) for b in (False, True) if r or not l] +
    [dict(pad='zero', cache=c, deriv=True, batch=b) for c in (False, True) for b in (False, True)],
    timeout=30000)
def cwt(**case):
    s = cw.cwt_case(**case)
    r = cw.run(s)
    W, sc = r[0], r[1]
    i, j, b = index('i', s.M), index('j', s.cols), index('b', s.B)
    p = (b,) if s.batch else ()
    ensure('one row per scale', both(shape_is(sc, s.M), shape_is(
        W, *((s.B,) if s.batch else ()), s.M, s.cols)))
    ensure('scales returned', eq(sc.at(i), s.sc(i)))
    ensure('filtered signal', eq(W.at(*p, i, j), s.value(i, j, b)))
    if s.deriv:
        ensure('derivative', eq(r[2].at(*p, i, j), s.value(i, j, b, True)))
    ensure('signal untouched', eq(s.x.at(*p, index('u', s.N)), s.x0(*p, index('u', s.N))))
    ensure('scales untouched', eq(s.scales.at(i), s.sc(i)))


def ordered(s, deriv, l1):
    """cwt by contract: an arbitrary transform of each order"""
    W = [P.uf('W%s' % c, P.I, P.I, P.I, P.R) for c in ('re', 'im', 'dre', 'dim')]

    def one(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32, l1_norm=True, derivative=False,
            padtype='reflect', rpadded=False, vectorized=True, astensor=True, cache_wavelet=None, order=0,
            average=None, nan_checks=None, patience=0):
        c = get(wavelet, 'config')
        o = c['order']
        ensure('same signal', x is s.x)
        ensure('one order at a time', order == 0)
        ensure('same options', both(eq(fs, s.fs), t is None, l1_norm is l1, derivative is deriv, padtype == 'wrap',
                                    rpadded is True, nan_checks is False))
        ensure('same wavelet otherwise', both(eq(c['gamma'], s.gamma), eq(c['beta'], s.beta),
                                             c['norm'] == ('bandpass' if l1 else 'energy')))
        i_ = index('q', s.M)
        ensure('same scales', eq(scales.at(i_), s.sc(i_)) if scales.ndim == 1 else eq(scales.at(i_, 0), s.sc(i_)))
        out = [A.new_arr(s.B + (s.M, s.N), A.as_dtype('complex128'),
                         lambda *p, k=k: Cx(W[k](zi(o), zi(p[-2]), zi(p[-1])), W[k + 1](zi(o), zi(p[-2]), zi(p[-1]))))
               for k in ((0, 2) if deriv else (0,))]
        return (out[0], scales, out[1]) if deriv else (out[0], scales)
    INTERP.stubs[CW + 'cwt'] = one
    return lambda o, i, j, d=False: Cx(W[2 * d](zi(o), zi(i), zi(j)), W[2 * d + 1](zi(o), zi(i), zi(j)))


@vc('higher orders', CW + 'cwt_higher_order', CW + '_process_gmw_wavelet',
    cases=[dict(orders=o, average=a, deriv=d, l1=l) for o, a in (
        (2, None), ((0, 1), None), ((0, 1, 2), True), ([1, 3], None), (range(3), False), ((2,), None), ((0, 2), False))
        for d in (False, True) for l in (False, True)] + [
    dict(orders=o, average=a, deriv=True, l1=True, batch=True) for o, a in ((2, None), ((0, 1), None), ((0, 2), False))])
def higher(orders, average, deriv, l1, batch=False):
    s = cw.Setup()
    s.N, s.M, s.B = dim('N', 2), dim('M', 2), (dim('B', 2),) if batch else ()
    s.x, s.scales, s.fs = arr('x', s.B + (s.N,)), arr('scales', (s.M,)), real('fs')
    every('scales', lambda v: v > 0)
    s.gamma, s.beta = real('gamma'), real('beta')
    assume(both(s.fs > 0, s.gamma > 1, s.beta > 1))
    s.sc = s.scales.snap()
    V = ordered(s, deriv, l1)
    r = call(CW + 'cwt_higher_order', s.x, ('gmw', {'gamma': s.gamma, 'beta': s.beta, 'dtype': 'float64'}), orders, average,
             scales=s.scales, fs=s.fs, l1_norm=l1, derivative=deriv, padtype='wrap', rpadded=True, nan_checks=False)
    i, j = index('i', s.M), index('j', s.N)
    b = tuple(index('b', n) for n in s.B)
    tup = [orders] if isinstance(orders, int) else list(orders)
    ensure('as many results', len(r) == (3 if deriv else 2))
    ensure('scales returned', eq(r[1].at(i), s.sc(i)))
    for d, got in ((False, r[0]),) + (((True, r[2]),) if deriv else ()):
        vals = [V(o, i, j, d) for o in tup]
        if len(tup) > 1 and average is False:
            ensure('one per order', len(got) == len(tup))
            for g, v in zip(got, vals):
                ensure('transform of that order', both(shape_is(g, *s.B, s.M, s.N), eq(g.at(*b, i, j), v)))
        else:
            m = vals[0]
            for v in vals[1:]:
                m = O.add(m, v)
            m = Cx(O.div(m.re, len(tup)), O.div(m.im, len(tup)))
            ensure('shape', shape_is(got, *s.B, s.M, s.N))
            ensure('mean of the orders', eq(got.at(*b, i, j), m))


@vc('orders passed on', CW + 'cwt', cases=[dict(orders=o) for o in (1, (0, 1), [2, 1], range(2))])
def orders_passed(orders):
    """cwt with order hands everything to the routine above"""
    N, M = dim('N', 2), dim('M', 2)
    x, scales, fs = arr('x', (N,)), arr('scales', (M,)), real('fs')
    assume(fs > 0)
    given_ = dict(scales=scales, fs=fs, l1_norm=False, derivative=True, padtype='wrap', rpadded=True, vectorized=False,
                  astensor=False, cache_wavelet=False, average=False, nan_checks=False, patience=0)
    want = dict(given_, t=None, nv=16, order=orders, wavelet='gmw')
    seen = []

    def record(x_, wavelet='gmw', order=1, average=None, astensor=True, **kw):
        seen.append(dict(kw, wavelet=wavelet, order=order, average=average, astensor=astensor))
        ensure('same signal', x_ is x)
        return 'result'
    fn(CW + 'cwt_higher_order')
    INTERP.stubs[CW + 'cwt_higher_order'] = record
    r = call(CW + 'cwt', x, 'gmw', nv=16, order=orders, **given_)
    ensure('its result', r == 'result' and len(seen) == 1)
    for a, v in want.items():
        ensure('argument passed on', a in seen[0] and (seen[0][a] is v or (not is_z3(v) and not isarr(v) and seen[0][a] == v)))

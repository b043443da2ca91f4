"""C09  Filters from the cache = fresh filters; looped = vectorized transform."""
from .common import *
from . import cw
from .cw import CW, PSI, freq

W_ = 'ssqueezepy.wavelets:Wavelet.'


def filt(a, k, L, nohalf):
    """the wavelet at scale `a` on a grid of L samples, the half-band bin halved on request"""
    v = PSI(O.mul(a, freq(k, L)))
    return v if nohalf else ite(both(zi(L) % 2 == 0, eq(k, zi(L) / 2)), O.div(v, 2.0), v)


def scales(name, M, nd):
    return arr(name, (M, 1) if nd == 2 else (M,))


def check(p, sc, M, N, nohalf):
    i, k = index('i', M), index('k', N)
    ensure('one filter per scale', shape_is(p, M, N))
    ensure('as computed afresh', eq(p.at(i, k), filt(sc(i, 0) if len(sc.shape) == 2 else sc(i), k, N, nohalf)))


def snap(a):
    s = a.snap()
    f = lambda *i: s(*i)
    f.shape = a.shape
    return f


NH = [(a, b) for a in (True, False) for b in (True, False)]


@vc('Psih after another request', W_ + 'Psih', W_ + '__call__', W_ + 'xifn', W_ + '_halve_nyquist',
    cases=[dict(nh=n, nd=d, how=h) for n in NH for d in (1, 2) for h in ('N', 'attr')] +
    [dict(nh=(False, False), nd=1, how='mutate'), dict(nh=(False, False), nd=2, how='mutate')])
def twice(nh, nd, how):
    """history of two requests with arbitrary lengths and scales (equal or not)"""
    M1, M2, N1, N2 = dim('M1', 2), dim('M2', 2), dim('N1', 2), dim('N2', 2)
    w = cw.custom_wavelet()
    s1, s2 = scales('sa', M1, nd), scales('sb', M2, nd)
    c1, c2 = snap(s1), snap(s2)
    p1 = method(w, 'Psih', scale=s1, N=N1, nohalf=nh[0])
    check(p1, c1, M1, N1, nh[0])
    if how == 'mutate':     # the caller reuses its array of scales
        A.setitem(s1, Ellipsis, A.new_arr(s1.shape, s1.dtype, lambda *i: O.mul(c1(*i), 3.0)))
        p2 = method(w, 'Psih', scale=s1, N=N1, nohalf=nh[1])
        d = lambda *i: O.mul(c1(*i), 3.0)
        d.shape = s1.shape
        check(p2, d, M1, N1, nh[1])
        return
    if how == 'attr':
        put(w, 'N', N2)
        p2 = method(w, 'Psih', scale=s2, nohalf=nh[1])
    else:
        p2 = method(w, 'Psih', scale=s2, N=N2, nohalf=nh[1])
    check(p2, c2, M2, N2, nh[1])
    i = index('i', M2)
    ensure('scales untouched', eq(s2.at(i, 0) if nd == 2 else s2.at(i), c2(i, 0) if nd == 2 else c2(i)))
    # nothing asked for: the last filters
    check(method(w, 'Psih'), c2, M2, N2, nh[1])


@vc('Psih after a failed request', W_ + 'Psih', cases=[dict(nh=n, nd=d) for n in NH for d in (1, 2)])
def failed(nh, nd):
    M1, M2, K2, N1, N2 = dim('M1', 2), dim('M2', 2), dim('K2', 2), dim('N1', 2), dim('N2', 2)
    w = cw.custom_wavelet()
    s1 = scales('sa', M1, nd)
    c1 = snap(s1)
    method(w, 'Psih', scale=s1, N=N1, nohalf=nh[0])
    e = raises(lambda: method(w, 'Psih', scale=arr('sb', (M2, K2)), N=N2, nohalf=nh[1]))
    ensure('two-dimensional scales rejected', e == 'ValueError')
    check(method(w, 'Psih', scale=s1, N=N1, nohalf=nh[0]), c1, M1, N1, nh[0])


@vc('Psih in any state', W_ + 'Psih', cases=[dict(nh=n, nd=d) for n in NH for d in (1, 2)])
def inductive(nh, nd):
    """cache invariant: what is stored is what its key says (any history of requests)"""
    M1, M2, N1, N2 = dim('M1', 2), dim('M2', 2), dim('N1', 2), dim('N2', 2)
    w = cw.custom_wavelet()
    s1, s2 = scales('sa', M1, nd), scales('sb', M2, nd)
    c1, c2 = snap(s1), snap(s2)
    names = ('_Psih', '_Psih_N', '_Psih_nohalf', '_Psih_scale')
    method(w, 'Psih', scale=s2, N=N2, nohalf=nh[0])
    if any(n not in w.attrs for n in names):
        raise Gone('cache attributes')
    at = lambda i: c1(i, 0) if nd == 2 else c1(i)
    w.attrs.update(_Psih_N=N1, _Psih_nohalf=nh[0], _Psih_scale=A.copy_arr(s1), _Psih=A.new_arr(
        (M1, N1), A.as_dtype('float64'), lambda i, k: filt(at(i), k, N1, nh[0])))
    p = method(w, 'Psih', scale=s2, N=N2, nohalf=nh[1])
    check(p, c2, M2, N2, nh[1])
    k = w.attrs
    ps = k['_Psih_scale']
    i = index('i!k', M2)
    ensure('stored under its key', both(eq(k['_Psih_N'], N2), k['_Psih_nohalf'] == nh[1], shape_is(
        ps, *s2.shape), eq(ps.at(i, 0) if nd == 2 else ps.at(i), c2(i, 0) if nd == 2 else c2(i))))
    check(k['_Psih'], c2, M2, N2, nh[1])


@vc('cwt', CW + 'cwt', W_ + 'Psih', W_ + '__call__', cases=[
    dict(vec=v, cache=c, deriv=d, batch=b, prior=p) for v, c in ((True, True), (True, False), (True, None), (False, None))
    for d in (False, True) for b in (False, True) for p in (False, True) if not (b and (d or p)) and (v or not p)
    and not (c is None and d and p)],
    timeout=30000)
def cwt(prior, **case):
    """the same closed form whatever the strategy and whatever the wavelet served before"""
    s = cw.cwt_case(pad='reflect', **case)
    if prior:
        M0, N0 = dim('M0', 2), dim('N0', 2)
        method(s.wavelet, 'Psih', scale=arr('s0', (M0, 1)), N=N0, nohalf=False)
    r = cw.run(s)
    i, j, b = index('i', s.M), index('j', s.cols), index('b', s.B)
    p = (b,) if s.batch else ()
    ensure('filtered signal', eq(r[0].at(*p, i, j), s.value(i, j, b)))
    if s.deriv:
        ensure('derivative', eq(r[2].at(*p, i, j), s.value(i, j, b, True)))

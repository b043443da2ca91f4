"""C18  Spacing detection: kind, transition index and voices per octave.

Geometric vectors are written 2**y with y affine (or affine with one change of slope)."""
from .common import *

U = 'ssqueezepy.utils.cwt_utils:'
TH = {'float64': 4e-15, 'float32': 8e-7}
TH_T = {'float64': 1e-14, 'float32': 1e-6}
DT = [dict(dt=d, col=c) for d in ('float64', 'float32') for c in (False, True)]


def vector(y, n, dt, col, power=True):
    f = (lambda i: O.pow_(2, y(i))) if power else y
    sh = (n, 1) if col else (n,)
    return A.new_arr(sh, A.as_dtype(dt), lambda i, *_: f(i))


def bumps(v):
    """absolute second differences"""
    return N_.NP.abs(N_.NP.diff(v, 2, axis=0))


def inverse(nv):
    d = real('d0')
    assume(d * zr(nv) == 1)
    assume(d > 0)
    return d


@vc('geometric', U + 'infer_scaletype', cases=[dict(c, few=f) for c in DT for f in (False, True)])
def geometric(dt, col, few):
    n = 2 if few else dim('n', 3)
    v0, nv = real('v0'), dim('nv')
    d = inverse(nv)
    ensure('voices from the step', z3.RealVal(1) / d == zr(nv))
    s = vector(lambda i: O.add(v0, O.mul(d, i)), n, dt, col)
    kind, got = call(U + 'infer_scaletype', s)
    ensure('kind', kind == 'log')
    ensure('voices per octave', eq(got, nv))


@vc('uniform', U + 'infer_scaletype', cases=DT)
def uniform(dt, col):
    n = dim('n', 3)
    a, b = real('a'), real('b')
    assume(a > 0)
    assume(b > 0)
    s = vector(lambda i: O.add(a, O.mul(b, i)), n, dt, col, power=False)
    # not geometric too, within the tolerance of the test for that
    assume(O.ge(N_.NP.mean(bumps(N_.NP.log(N_.reshape(s, (-1, 1))))), TH[dt]))
    kind, nv = call(U + 'infer_scaletype', s)
    ensure('kind', kind == 'linear')
    ensure('no voices', nv is None)


def two_slopes(dt, col):
    """2**y, y of slope d0 up to element t and d1 from there on"""
    n = dim('n', 3)
    t = integer('t', 1, O.sub(n, 1))
    v0, d0, d1 = real('v0'), real('d0'), real('d1')
    assume(d0 > 0)
    assume(d1 > 0)
    gap = z3.If(d1 >= d0, d1 - d0, d0 - d1)
    LN2 = O.log_('log', 2)
    y = lambda i: ite(O.le(i, t), O.add(v0, O.mul(d0, i)),
                      O.add(O.add(v0, O.mul(d0, t)), O.mul(d1, O.sub(i, t))))
    s = vector(y, n, dt, col)
    assume(O.ge(O.mul(gap, LN2), TH_T[dt]))
    return n, t, d0, d1, gap, s


def lemmas(s, n, t, gap, col, LN2):
    d = bumps(N_.NP.log(s))
    k = index('k', O.sub(n, 2))
    kk = (k, 0) if col else (k,)
    want = ite(eq(k, O.sub(t, 1)), O.mul(gap, LN2), 0.0)
    ensure('one bump', eq(d.at(*kk), want))
    ensure('its place', eq(N_.NP.argmax(d), O.sub(t, 1)))
    ensure('its size', eq(N_.NP.max(d), O.mul(gap, LN2)))
    rest = A.copy_arr(d)
    A.setitem(rest, O.sub(O.add(N_.NP.argmax(d), 2), 2), 0.0)
    j = index('j', O.sub(n, 2))
    ensure('nothing else', eq(rest.at(*((j, 0) if col else (j,))), 0.0))
    ensure('nothing on average', eq(N_.NP.mean(N_.NP.abs(rest)), 0.0))


@vc('transition', U + 'logscale_transition_idx', cases=DT)
def transition(dt, col):
    n, t, d0, d1, gap, s = two_slopes(dt, col)
    lemmas(s, n, t, gap, col, O.log_('log', 2))
    idx = call(U + 'logscale_transition_idx', s)
    ensure('found', idx is not None)
    ensure('first element of the second slope', eq(idx, O.add(t, 1)))


@vc('no transition', U + 'logscale_transition_idx', cases=[dict(c, few=f) for c in DT for f in (1, 2, None)])
def none(dt, col, few):
    n = few or dim('n', 3)
    v0, d = real('v0'), real('d0')
    assume(d > 0)
    s = vector(lambda i: O.add(v0, O.mul(d, i)), n, dt, col)
    ensure('none', call(U + 'logscale_transition_idx', s) is None)


def voices(d):
    """logdiffs of a slope"""
    return O.div(1.0, d, 'raw')


def nv_facts(s, n, t, d0, d1, col):
    """the reciprocal differences jump at one place"""
    lg = N_.NP.diff(N_.NP.log2(s), axis=0)
    r = A.elementwise(lambda x: O.div(1.0, x, 'raw'), [lg], lg.dtype)
    v = N_.NP.vstack([A.getitem(r, slice(None, 1)), r])
    e = N_.NP.abs(N_.NP.diff(v, axis=0))
    k = index('k2', O.sub(n, 1))
    q0, q1 = z3.RealVal(1) / d0, z3.RealVal(1) / d1
    jump = z3.If(q1 >= q0, q1 - q0, q0 - q1)
    ensure('one jump', eq(e.at(k, 0), ite(eq(k, t), jump, 0.0)))
    ensure('jump', jump > 0)
    ensure('where the jump is', eq(N_.NP.argmax(e), t))


def same_vector(v, s, n):
    k = index('k!v', n)
    at = lambda a: a.at(k, 0) if a.ndim == 2 else a.at(k)
    ensure('the vector is handed on', both(shape_is(v, n, 1), v.dtype.name == s.dtype.name,
                                           eq(at(v), at(s))))


def transition_stub(s, n, t):
    """contract of logscale_transition_idx, proved above"""
    def f(v):
        same_vector(v, s, n)
        return O.add(t, 1)
    INTERP.stubs[U + 'logscale_transition_idx'] = f


@vc('voices per element', U + 'nv_from_scales', cases=[dict(dt=d, col=True) for d in ('float64', 'float32')])
def per_element(dt, col):
    n, t, d0, d1, gap, s = two_slopes(dt, col)
    transition_stub(s, n, t)
    nv_facts(s, n, t, d0, d1, col)
    nv = call(U + 'nv_from_scales', s)
    i = index('i', n)
    ensure('one per element', shape_is(nv, n, 1))
    ensure('voices', eq(nv.at(i, 0), ite(O.le(i, t), voices(d0), voices(d1))))


@vc('two slopes', U + 'infer_scaletype', cases=DT)
def piecewise(dt, col):
    n, t, d0, d1, gap, s = two_slopes(dt, col)
    c = N_.reshape(s, (-1, 1))
    transition_stub(s, n, t)

    def per_element(v):
        same_vector(v, s, n)
        return A.new_arr((n, 1), v.dtype, lambda i, j: ite(O.le(i, t), voices(d0), voices(d1)))
    INTERP.stubs[U + 'nv_from_scales'] = per_element
    # the change of slope is beyond the tolerances of the tests for the other kinds
    assume(O.ge(N_.NP.mean(bumps(N_.NP.log(c))), TH[dt]))
    assume(O.ge(N_.NP.mean(bumps(c)), TH[dt] * 1e3))
    kind, nv = call(U + 'infer_scaletype', s)
    ensure('kind', kind == 'log-piecewise')
    i = index('i', n)
    ensure('one per element', shape_is(nv, n, 1))
    ensure('voices', eq(nv.at(i, 0), ite(O.le(i, t), voices(d0), voices(d1))))


@vc('rejected', U + 'infer_scaletype', cases=[dict(dt='int64'), dict(dt='complex128')])
def rejected(dt):
    n = dim('n', 3)
    s = arr('s', (n,), dt)
    try:
        call(U + 'infer_scaletype', s)
    except SymRaise as e:
        ensure('rejected', e.cls == 'TypeError')
        return
    ensure('rejected', False)

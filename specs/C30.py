"""C30  Numeric differentiation: stencils, threshold, phase step."""
from .common import *

Q = 'ssqueezepy._ssq_cwt:'


def lin(*terms):
    out = Cx(0.0, 0.0)
    for c, z in terms:
        out = O.add(out, O.mul(c, lift_cx(z)))
    return out


@vc('phase_cwt_num', Q + 'phase_cwt_num', cases=[
    dict(order=o, dt_=d, dflt=f) for o in (1, 2, 4) for d in ('complex128', 'complex64')
    for f in (False, True)])
def phase_cwt_num(order, dt_, dflt):
    M, N = dim('M'), dim('N', 2)
    W = arr('Wx', (M, N), dt_)
    W0 = W.snap()
    dt, g = real('dt'), real('gamma')
    assume(both(dt > 0, g > 0))
    w = call(Q + 'phase_cwt_num', W, dt, order, None if dflt else g)
    gam = 10 * (2.0**-52 if dt_ == 'complex128' else 2.0**-23) if dflt else g
    i, j = index('i', M), index('j', N)

    def at_(k):                             # periodic at the ends
        q = j + k
        return W0(i, z3.If(q >= N, q - N, z3.If(q < 0, q + N, q)))
    # N = 2 wraps the two appended samples onto the row itself as well
    D = {1: [(1, at_(1)), (-1, at_(0))],
         2: [(-1, at_(2)), (4, at_(1)), (-3, at_(0))],
         4: [(-1, at_(2)), (8, at_(1)), (-8, at_(-1)), (1, at_(-2))]}[order]
    den = {1: 1, 2: 2, 4: 12}[order]
    d = lin(*D)
    d = Cx(O.div(d.re, O.mul(den, dt), 'raw'), O.div(d.im, O.mul(den, dt), 'raw'))
    ensure('one value per point', both(shape_is(w, M, N)))
    low = O.lt(mag(W0(i, j)), gam)
    got = w.at(i, j)
    ensure('infinite exactly below threshold', eq(O.isinf(got), low))
    ensure('value', implies(no(low), eq(got, O.fabs(omega(W0(i, j), d)))))
    ensure('nonnegative', implies(no(low), O.ge(got, 0)))
    ensure('input untouched', eq(W.at(i, j), W0(i, j)))


@vc('phase_cwt_num rejects', Q + 'phase_cwt_num', cases=[dict(order=0), dict(order=3), dict(order=5)])
def rejects(order):
    W = arr('Wx', (dim('M'), dim('N', 2)), 'complex128')
    e = raises(lambda: call(Q + 'phase_cwt_num', W, real('dt'), order))
    ensure('rejected', e == 'ValueError')


@vc('phase_cwt phase', Q + 'phase_cwt', cases=[dict(dt='complex128'), dict(dt='complex64')])
def phase_difference(dt):
    """steps of the unwrapped phase (np.angle, np.unwrap along time are trusted)"""
    M, N = dim('M'), dim('N', 2)
    W, dW = arr('Wx', (M, N), dt), arr('dWx', (M, N), dt)
    W0 = W.snap()
    g = real('gamma')
    assume(g > 0)
    w = call(Q + 'phase_cwt', W, dW, 'phase', g)
    i, j = index('i', M), index('j', N)
    u = lambda k: unwrap_line(lambda v: angle_of(W0(i, v)), N, k)
    step = ite(O.lt(j, N - 1), O.sub(u(j + 1), u(j)), O.sub(u(N - 1), u(0)))
    ensure('one value per point', shape_is(w, M, N))
    low = O.lt(mag(W0(i, j)), g)
    got = w.at(i, j)
    ensure('infinite exactly below threshold', eq(O.isinf(got), low))
    ensure('value', implies(both(no(low), j < N - 1), eq(got, O.div(O.fabs(step), TWO_PI))))
    ensure('nonnegative', O.ge(got, 0))
    ensure('input untouched', eq(W.at(i, j), W0(i, j)))

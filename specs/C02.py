"""C02  Phase transforms: formula, threshold, sign."""
from .common import *

MODES = [dict(par=False, dt='complex128'), dict(par=True, dt='complex128'),
         dict(par=None, dt='complex64')]
A_ = 'ssqueezepy.algos:'


def inputs(dt, gamma='sym'):
    M, N = dim('M'), dim('N')
    Wx, dWx = arr('Wx', (M, N), dt), arr('dWx', (M, N), dt)
    g = real('gamma')
    assume(g > 0)
    return M, N, Wx, dWx, g


def posts(w, M, N, Wx, dWx, g, dt, f=None):
    ensure('shape', shape_is(w, M, N))
    ensure('dtype', w.dtype.name == ('float32' if dt == 'complex64' else 'float64'))
    i, j = index('i', M), index('j', N)
    W, D = Wx(i, j), dWx(i, j)
    got = at(w, i, j)
    inst = omega(W, D)
    if f is not None:
        inst = O.sub(f(i), inst)
    low = O.lt(mag(W), g)
    ensure('infinite exactly below threshold', eq(O.isinf(got), low))
    ensure('value', implies(no(low), eq(got, O.fabs(inst))))
    ensure('nonnegative', O.ge(got, 0))
    ensure('not nan', no(O.isnan(got)))


@vc('phase_cwt_cpu', A_ + 'phase_cwt_cpu', A_ + '_phase_cwt', A_ + '_phase_cwt_par',
    cases=MODES)
def phase_cwt_cpu(par, dt):
    M, N, Wx, dWx, g = inputs(dt)
    W0, D0 = Wx.snap(), dWx.snap()
    w = call(A_ + 'phase_cwt_cpu', Wx, dWx, g, parallel=par)
    posts(w, M, N, W0, D0, g, dt)


@vc('phase_stft_cpu', A_ + 'phase_stft_cpu', A_ + '_phase_stft', A_ + '_phase_stft_par',
    cases=MODES)
def phase_stft_cpu(par, dt):
    M, N, Wx, dWx, g = inputs(dt)
    Sfs = arr('Sfs', (M,), 'float64')
    W0, D0, f0 = Wx.snap(), dWx.snap(), Sfs.snap()
    w = call(A_ + 'phase_stft_cpu', Wx, dWx, Sfs, g, parallel=par)
    posts(w, M, N, W0, D0, g, dt, f0)


@vc('phase_cwt', 'ssqueezepy._ssq_cwt:phase_cwt',
    cases=[dict(c, dflt=d) for c in MODES for d in (False, True)])
def phase_cwt(par, dt, dflt):
    M, N, Wx, dWx, g = inputs(dt)
    W0, D0 = Wx.snap(), dWx.snap()
    w = call('ssqueezepy._ssq_cwt:phase_cwt', Wx, dWx, 'trig', None if dflt else g,
             parallel=par)
    eps = 2.0**-52 if dt == 'complex128' else 2.0**-23
    posts(w, M, N, W0, D0, eps**.5 if dflt else g, dt)


@vc('phase_stft', 'ssqueezepy._ssq_stft:phase_stft',
    cases=[dict(c, dflt=d) for c in MODES for d in (False, True)])
def phase_stft(par, dt, dflt):
    M, N, Wx, dWx, g = inputs(dt)
    Sfs = arr('Sfs', (M,), 'float64')
    W0, D0, f0 = Wx.snap(), dWx.snap(), Sfs.snap()
    w = call('ssqueezepy._ssq_stft:phase_stft', Wx, dWx, Sfs, None if dflt else g,
             parallel=par)
    eps = 2.0**-52 if dt == 'complex128' else 2.0**-23
    posts(w, M, N, W0, D0, 10 * eps if dflt else g, dt, f0)


@vc('make_Sfs', 'ssqueezepy._ssq_stft:_make_Sfs',
    cases=[dict(batch=b) for b in (False, True)])
def make_Sfs(batch):
    M, N = dim('M', 2), dim('N')
    fs = real('fs')
    assume(fs > 0)
    S = arr('Sx', (dim('B'), M, N) if batch else (M, N), 'complex128')
    f = call('ssqueezepy._ssq_stft:_make_Sfs', S, fs)
    ensure('one frequency per row', shape_is(f, M))
    i = index('i', M)
    ensure('row frequency', eq(O.mul(at(f, i), O.sub(M, 1)), O.mul(O.mul(fs, .5), i)))

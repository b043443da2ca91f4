"""C23  Replacement helpers change exactly the selected entries."""
from .common import *

A_ = 'ssqueezepy.algos:'


def cell(name, n, ext, dt='float64'):
    dims = [dim('n%d' % i) for i in range(n)]
    return dims, arr(name, dims, dt, ext=ext)


REPL = [('replace_at_inf_or_nan', lambda r, v: either(O.isinf(r), O.isnan(r))),
        ('replace_at_inf', lambda r, v: O.isinf(r)),
        ('replace_at_nan', lambda r, v: O.isnan(r)),
        ('replace_at_value', lambda r, v: O.eq(r, v))]


@vc('replace_at', *[A_ + f for f, _ in REPL], *[A_ + '_' + f for f, _ in REPL],
    cases=[dict(fn_=f, nd=n, own=o) for f, _ in REPL for n in (1, 2, 3)
           for o in (False, True)], paths=60)
def replace_at(fn_, nd, own):
    sel = dict(REPL)[fn_]
    dims, x = cell('x', nd, 'pnx')
    # reported at least 2 along the last axis unless 3-d (squeeze of added axes only)
    ref = x if own else arr('ref', dims, 'float64', ext='pnx')
    rep, val = real('rep'), real('val')
    x0, r0 = x.snap(), ref.snap()
    kw = dict(replacement=rep)
    if fn_ == 'replace_at_value':
        kw['value'] = val
    y = call(A_ + fn_, x, None if own else ref, **kw)
    idx = [index('i%d' % k, n) for k, n in enumerate(dims)]
    ensure('same shape', shape_is(y, *dims))
    hit = sel(r0(*idx), val)
    want = ite(hit, rep, x0(*idx))
    ensure('exactly the selected entries', eq(y.at(*idx), want))
    ensure('in place', eq(x.at(*idx), want))
    if not own:
        ensure('reference untouched', eq(ref.at(*idx), r0(*idx)))


@vc('replace_under_abs', A_ + 'replace_under_abs', A_ + '_replace_under_abs',
    A_ + '_replace_under_abs_par', cases=[dict(par=p, dt=d) for p in (False, True, None)
                                         for d in ('float64', 'complex128')])
def replace_under_abs(par, dt):
    M, N = dim('M'), dim('N')
    x, ref = arr('x', (M, N)), arr('ref', (M, N), dt)
    val, rep = real('val'), real('rep')
    x0, r0 = x.snap(), ref.snap()
    call(A_ + 'replace_under_abs', x, ref, val, rep, par)
    i, j = index('i', M), index('j', N)
    ensure('exactly the small entries', eq(x.at(i, j), ite(
        O.lt(O.fabs(r0(i, j)), val), rep, x0(i, j))))
    ensure('reference untouched', eq(ref.at(i, j), r0(i, j)))


@vc('zero_denormals', A_ + 'zero_denormals', A_ + '_zero_denormals', A_ + '_zero_denormals_par',
    cases=[dict(par=p, dt=d, nd=n) for p in (False, True, None)
           for d in ('float64', 'float32') for n in (1, 2)])
def zero_denormals(par, dt, nd):
    dims, x = cell('x', nd, False, dt)
    x0 = x.snap()
    call(A_ + 'zero_denormals', x, par)
    idx = [index('i%d' % k, n) for k, n in enumerate(dims)]
    tiny = 1000 * (2.0**-1022 if dt == 'float64' else 2.0**-126)
    v = x0(*idx)
    ensure('only denormal-range entries are zeroed',
           eq(x.at(*idx), ite(O.lt(O.fabs(v), tiny), 0, v)))

"""C24  find_closest: nearest value of a sorted / uniform grid."""
from .common import *
from .C03 import use_grid, KINDS, nearest  # noqa

A_ = 'ssqueezepy.algos:'


@vc('find_closest', A_ + 'find_closest', A_ + 'find_closest_log', A_ + 'find_closest_lin',
    A_ + '_find_closest_log', A_ + '_find_closest_log_par', A_ + '_find_closest_lin',
    A_ + '_find_closest_lin_par', A_ + '_find_closest_log_piecewise',
    A_ + '_find_closest_log_piecewise_par', A_ + '_get_params_find_closest_log',
    cases=[dict(kind=k, par=p) for k in KINDS for p in (False, True)], timeout=40000)
def find_closest(kind, par):
    M, N = dim('M'), dim('N')
    nf = dim('nf', 3 if kind == 'piecewise' else 2)
    g = Grid(kind, nf)
    use_grid(g)
    a = arr('a', (M, N), 'float64', ext='p')
    every('a', lambda x: x >= 0)
    a0 = a.snap()
    k = call(A_ + 'find_closest', a, g.vals, kind != 'lin', par, False)
    i, j = index('i', M), index('j', N)
    ensure('shape', shape_is(k, M, N))
    ensure('integer', k.dtype.kind == 'i')
    ensure('nearest bin', eq(k.at(i, j), g.bin(a0(i, j))))
    ensure('input unchanged', eq(a.at(i, j), a0(i, j)))


INCLUDE = [nearest]


@vc('find_closest_brute', A_ + 'find_closest_brute')
def brute():
    M, N, n = dim('M'), dim('N'), dim('n')
    a, v = arr('a', (M, N)), arr('v', (n,))
    k = call(A_ + 'find_closest_brute', a, v)
    i, j, m = index('i', M), index('j', N), index('m', n)
    q = k.at(i, j)
    ensure('shape', shape_is(k, M, N))
    ensure('in range', both(O.ge(q, 0), O.lt(q, n)))
    d = lambda t: O.fabs(O.sub(a.at(i, j), v.at(t)))
    ensure('no value is nearer', O.le(d(q), d(m)))


@vc('find_closest_smart', A_ + 'find_closest_smart', A_ + 'find_closest',
    cases=[dict(via=v) for v in ('itself', 'smart', 'log')])
def smart(via):
    M, N, n = dim('M'), dim('N'), dim('n')
    a, v = arr('a', (M, N)), arr('v', (n,))
    if via == 'log':
        every('a', lambda x: x > 0)
        every('v', lambda x: x > 0)
    a0, v0 = a.snap(), v.snap()
    if via == 'itself':
        k = call(A_ + 'find_closest_smart', a, v)
    else:
        k = call(A_ + 'find_closest', a, v, via == 'log', False, True)
    f = (lambda x: O.log_('log2', x)) if via == 'log' else (lambda x: x)
    i, j, m = index('i', M), index('j', N), index('m', n)
    q = k.at(i, j)
    ensure('shape', shape_is(k, M, N))
    ensure('in range', both(O.ge(q, 0), O.lt(q, n)))
    d = lambda t: O.fabs(O.sub(f(a0(i, j)), f(v0(t))))
    ensure('no value is nearer', O.le(d(q), d(m)))
    ensure('inputs unchanged', both(eq(a.at(i, j), a0(i, j)), eq(v.at(m), v0(m))))

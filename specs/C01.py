"""C01  Padding: length, offset, and the source sample of every padded position."""
from .common import *

U_ = 'ssqueezepy.utils.common:'
TYPES = ['zero', 'reflect', 'symmetric', 'replicate', 'wrap']


def pow2_facts(n):
    """2**y and log2 are inverse and increasing (assumed of the mathematical functions)"""
    y = P.log2(zr(n))
    assume(P.uf('pow2', P.R, P.R)(y) == zr(n))
    return y


@vc('p2up', U_ + 'p2up')
def p2up():
    n = dim('n')
    y = pow2_facts(n)
    k = 1 + P.rnd(y)
    p = P.uf('pow2', P.R, P.R)(zr(k))
    assume(z3.ToReal(z3.ToInt(p)) == p)             # a power of two with k >= 0
    up, n1, n2 = call(U_ + 'p2up', n)
    ensure('length is the power of two chosen', eq(zr(up), p))
    ensure('at least the signal', O.ge(up, n))
    ensure('parts add up', eq(O.add(O.add(n1, n2), n), up))
    ensure('balanced', both(O.ge(n2, 0), either(eq(n1, n2), eq(n1, O.add(n2, 1)))))


def source(kind, q, n):
    """(is a sample, index) of padded position q relative to the first sample"""
    inside = both(O.le(0, q), O.lt(q, n))
    if kind == 'zero':
        return inside, q
    if kind == 'replicate':
        return True, z3.If(q < 0, z3.IntVal(0), z3.If(q >= n, n - 1, q))
    if kind == 'wrap':
        return True, q % n
    if kind == 'symmetric':
        m = q % (2 * n)
        return True, z3.If(m < n, m, 2 * n - 1 - m)
    m = q % (2 * n - 2)
    return True, z3.If(m < n, m, 2 * n - 2 - m)


@vc('padsignal', U_ + 'padsignal', cases=[
    dict(kind=k, batch=b, auto=a) for k in TYPES for b in (False, True)
    for a in (False, True)])
def padsignal(kind, batch, auto):
    n, B = dim('n', 2), dim('B')
    x = arr('x', (B, n) if batch else (n,), 'complex128' if kind == 'wrap' else 'float64')
    x0 = x.snap()
    if auto:
        k = 1 + P.rnd(pow2_facts(n))
        p2 = P.uf('pow2', P.R, P.R)(zr(k))
        L = z3.ToInt(p2)
        assume(z3.ToReal(L) == p2)
        res = call(U_ + 'padsignal', x, kind, get_params=True)
    else:
        L = integer('L', n)
        res = call(U_ + 'padsignal', x, kind, L, get_params=True)
    xp, n_up, n1, n2 = res
    ensure('requested length', both(eq(n_up, L), shape_is(xp, *((B,) if batch else ()), L)))
    ensure('offset', both(O.ge(n2, 0), eq(O.add(O.add(n1, n2), n), L),
                          either(eq(n1, n2), eq(n1, O.add(n2, 1)))))
    r, p = index('r', B), index('p', L)
    pre = (r,) if batch else ()
    i = index('i', n)
    ensure('signal in the middle', eq(xp.at(*pre, O.add(n1, i)), x0(*pre, i)))
    ok, s = source(kind, p - zi(n1), n)
    zero = Cx(0.0, 0.0) if x.dtype.kind == 'c' else 0.0
    ensure('padded values', eq(xp.at(*pre, p), ite(ok, x0(*pre, s), zero)))
    ensure('input untouched', eq(x.at(*pre, i), x0(*pre, i)))


@vc('padsignal rejects', U_ + 'padsignal', cases=[dict(nd=3, kind='zero'), dict(nd=1, kind='reflec')])
def rejects(nd, kind):
    x = arr('x', (dim('a'), dim('b'), dim('c'))[:nd])
    e = raises(lambda: call(U_ + 'padsignal', x, kind))
    ensure('rejected', e == 'ValueError')

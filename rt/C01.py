import numpy as np
from .base import case, ensure, close, same, Skip
from ssqueezepy.utils import padsignal, p2up

TYPES = ['zero', 'reflect', 'symmetric', 'replicate', 'wrap']


def source(kind, n, q):
    """index into x of padded position q (relative to the first sample); None: zero"""
    if 0 <= q < n:
        return q
    if kind == 'zero':
        return None
    if kind == 'replicate':
        return 0 if q < 0 else n - 1
    if kind == 'wrap':
        return q % n
    if kind == 'symmetric':
        q %= 2 * n
        return q if q < n else 2 * n - 1 - q
    if n == 1:
        return 0
    q %= 2 * n - 2
    return q if q < n else 2 * n - 2 - q


@case(quick=400)
def values(rng, k):
    kind = TYPES[k % 5]
    n = int(rng.integers(2, 70)) if k % 7 else int(rng.integers(1, 5))
    if n == 1 and kind == 'reflect':
        raise Skip()
    b = int(rng.integers(0, 4))
    x = rng.standard_normal((b, n) if b else n)
    if k % 4 == 3:
        x = x + 1j * rng.standard_normal(x.shape)
    L = None if k % 3 == 0 else n + int(rng.integers(0, 3 * n + 3))
    x0 = x.copy()
    xp, n_up, n1, n2 = padsignal(x, kind, L, get_params=True)
    i = dict(x=x0, padtype=kind, padlength=L)
    same(x, x0, 'input modified', **i)
    ensure(n_up == n1 + n + n2 and xp.shape == x.shape[:-1] + (n_up,), 'inconsistent lengths', n_up=n_up, n1=n1, n2=n2, **i)
    ensure(n1 >= 0 and n2 >= 0 and n1 - n2 in (0, 1), 'left and right are not balanced', n1=n1, n2=n2, **i)
    if L is None:
        ensure(n_up & (n_up - 1) == 0 and n_up > n, 'not a power of two above the length', n_up=n_up, **i)
    else:
        ensure(n_up == L, 'not the requested length', n_up=n_up, **i)
    src = [source(kind, n, q - n1) for q in range(n_up)]
    want = np.stack([np.zeros(x.shape[:-1], x.dtype) if s is None else x0[..., s] for s in src], -1)
    same(xp, want, 'wrong values', n1=n1, **i)
    same(padsignal(x, kind, L), xp, 'return value depends on get_params', **i)


@case(quick=1)
def lengths(rng, k):
    for n in list(range(1, 3000)) + [int(a) for a in rng.integers(3000, 10**7, 2000)]:
        up, n1, n2 = p2up(n)
        ensure(up & (up - 1) == 0 and up > n and n1 + n + n2 == up and n1 - n2 in (0, 1), 'p2up', n=n,
               got=(up, n1, n2))
        ensure(up < 3 * n or n < 3, 'p2up: more than the next-but-one power', n=n, got=up)


@case(quick=20)
def rejects(rng, k):
    x = rng.standard_normal((3, 3, 3)[:1 + k % 3])
    bad = []
    try:
        padsignal(x, ['reflec', 'constant', 'edge', '', None][k % 5])
        ensure(False, 'unknown scheme accepted')
    except ValueError:
        pass
    if x.ndim == 3:
        try:
            padsignal(x)
            ensure(False, '3-d accepted')
        except ValueError:
            pass

"""Mathematical specification functions shared by the contracts."""
from pyvc.spec import *
from pyvc.npmodel import *

TWO_PI = 6.283185307179586


def mag(c):
    return O.fabs(lift_cx(c))


def omega(W, D):
    """Im(D / W) / 2pi"""
    W, D = lift_cx(W), lift_cx(D)
    num = O.sub(O.mul(D.im, W.re), O.mul(D.re, W.im))
    den = O.add(O.mul(W.re, W.re), O.mul(W.im, W.im))
    return O.div(num, O.mul(den, TWO_PI), 'raw')


def clamp_round(x, omax):
    """nearest integer to x, clamped into [0, omax]; x may be +-inf"""
    if isinstance(x, Ext):
        r = clamp_round(x.val, omax)
        return ite(x.pinf, omax, ite(x.ninf, 0, r))
    r = P.rnd(zr(x))
    return z3.If(r < 0, z3.IntVal(0), z3.If(r > zi(omax), zi(omax), r))


class Grid:
    """frequency bins: kind lin | log | piecewise, of n bins, ascending"""

    def __init__(self, kind, n, v0=None, d0=None):
        self.kind, self.n, self.omax = kind, n, O.sub(n, 1)
        v0 = real('v0') if v0 is None else v0
        d0 = real('d0') if d0 is None else d0
        self.v0, self.d0 = v0, d0
        assume(d0 >= 2.0**-51)
        if kind == 'lin':
            self.pos = lambda k: v0 + d0 * zr(k)
            f = lambda k: O.add(v0, O.mul(d0, k))
            assume(v0 >= 0)
        elif kind == 'log':
            # log2 of bin k is v0 + d0 k
            self.pos = lambda k: v0 + d0 * zr(k)
            f = None
            assume(v0 >= -1100); assume(self.pos(self.omax) <= 1100)
        else:
            d1 = real('d1')
            assume(d1 >= 2.0**-51)
            t = integer('t', 1, O.sub(n, 1))       # last bin of the first piece
            self.t, self.d1 = t, d1
            v1 = v0 + d0 * zr(t)
            self.v1 = v1
            self.pos = lambda k: ite(O.le(k, t), v0 + d0 * zr(k),
                                     v1 + d1 * (zr(k) - zr(t)))
            assume(v0 >= -1100); assume(self.pos(self.omax) <= 1100)
            f = None
        if f is None:
            vals = arr('v', (n,), 'float64')
            f = lambda k: vals.at(k)
        self.vals = A.new_arr((n,), A.as_dtype('float64'), f)

    def value(self, k):
        return self.vals.at(k)

    def facts(self, k):
        """bin k lies where the grid says (log grids)"""
        if self.kind != 'lin':
            v = zr(self.value(k))
            assume(v > 0)
            assume(P.log2(v) == self.pos(k))

    def coord(self, w):
        return w if self.kind == 'lin' else O.log_('log2', w)

    def bin(self, w):
        """closed form of the nearest bin"""
        c = self.coord(w)
        if self.kind != 'piecewise':
            return clamp_round(O.div(O.sub(c, self.v0), self.d0, 'raw'), self.omax)
        lo = clamp_round(O.div(O.sub(c, self.v0), self.d0, 'raw'), self.omax)
        x = O.div(O.sub(c, self.v1), self.d1, 'raw')
        if isinstance(x, Ext):
            r = ite(x.pinf, self.omax, P.rnd(zr(x.val)) + self.t)
        else:
            r = P.rnd(zr(x)) + self.t
        hi = ite(O.gt(r, self.omax), self.omax, r)
        return ite(O.gt(c, self.v1), hi, lo)


def buffer_contract(x, seg_len, n_overlap, modulated=False, parallel=None):
    """contract of utils.stft_utils:buffer (proved in specs/C12.py)"""
    L, n = x.shape[-1], seg_len
    hop = O.sub(n, n_overlap)
    ensure('buffer precondition', both(O.ge(hop, 1), O.le(hop, n), O.le(n, L)))
    K = (zi(L) - zi(n)) / zi(hop) + 1
    h = zi(n) / 2
    x0 = x.snap()

    def f(*i):
        q, k = zi(i[-2]), zi(i[-1])
        if modulated:
            q = z3.If(q + h < zi(n), q + h, q + h - zi(n))
        return x0(*i[:-2], q + k * zi(hop))
    return A.new_arr((*x.shape[:-1], n, K), x.dtype, f)

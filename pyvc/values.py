"""Scalar values of the symbolic interpreter.

A scalar is one of
  * a concrete Python int / float / bool / complex (floats are exact dyadic rationals),
  * a z3 Int / Real / Bool term (floats modelled as mathematical reals),
  * Ext  -- an extended real: finite value plus +inf / -inf / nan flags,
  * Cx   -- a complex number, a pair of real scalars.
"""
from fractions import Fraction
import math
import z3


class Unsupported(Exception):
    """The code under verification leaves the subset this verifier interprets."""


class Gone(Exception):
    """A private function a contract names directly is no longer in the source."""


class SymRaise(Exception):
    """An exception raised by the code under verification."""
    def __init__(self, cls, msg='', node=None):
        super().__init__('%s: %s' % (cls, msg))
        self.cls, self.msg, self.node = cls, msg, node


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_conc(x):
    return isinstance(x, (int, float, bool, complex)) and not isinstance(x, z3.ExprRef)


class Ext:
    __slots__ = ('val', 'pinf', 'ninf', 'nan')

    def __init__(self, val, pinf=False, ninf=False, nan=False):
        self.val, self.pinf, self.ninf, self.nan = val, pinf, ninf, nan

    def __repr__(self):
        return 'Ext(%s,+%s,-%s,n%s)' % (self.val, self.pinf, self.ninf, self.nan)


class Cx:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return 'Cx(%s, %s)' % (self.re, self.im)


# ---------------------------------------------------------------- bools
def b_not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_true(a):
        return False
    if z3.is_false(a):
        return True
    return z3.Not(a)


def b_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def b_implies(a, b):
    return b_or(b_not(a), b)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def norm_bool(c):
    """-> python bool when syntactically decided."""
    if isinstance(c, bool):
        return c
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    s = z3.simplify(c)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return c


# ---------------------------------------------------------------- to z3
def zr(x):
    """real-sorted z3 term"""
    if isinstance(x, bool):
        return z3.RealVal(1 if x else 0)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported('non-finite constant in real arithmetic')
        return z3.RealVal(Fraction(x))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if is_z3(x):
        if z3.is_bool(x):
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
        if x.is_int():
            # keep exact small literals
            if z3.is_int_value(x):
                return z3.RealVal(x.as_long())
            return z3.ToReal(x)
        return x
    raise Unsupported('not a real scalar: %r' % (x,))


def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float) and x == int(x):
        return z3.IntVal(int(x))
    if is_z3(x):
        if z3.is_bool(x):
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if x.is_int():
            return x
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
            return x.arg(0)
        s = z3.simplify(x)
        if z3.is_rational_value(s) and s.denominator_as_long() == 1:
            return z3.IntVal(s.numerator_as_long())
        s2 = z3.simplify(z3.ToInt(x))
        return s2
    raise Unsupported('not an int scalar: %r' % (x,))


def is_intlike(x):
    if isinstance(x, (bool, int)):
        return True
    return is_z3(x) and (z3.is_bool(x) or x.is_int())


def is_boollike(x):
    return isinstance(x, bool) or (is_z3(x) and z3.is_bool(x))


def lift_ext(x):
    if isinstance(x, Ext):
        return x
    if isinstance(x, float):
        if math.isinf(x):
            return Ext(0, pinf=x > 0, ninf=x < 0)
        if math.isnan(x):
            return Ext(0, nan=True)
    return Ext(x)


def mk_ext(v, p, n, nan):
    p, n, nan = norm_bool(p), norm_bool(n), norm_bool(nan)
    if p is False and n is False and nan is False:
        return v
    return Ext(v, p, n, nan)


def is_nonfinite_conc(x):
    return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


def needs_ext(*xs):
    return any(isinstance(x, Ext) or is_nonfinite_conc(x) for x in xs)


def needs_cx(*xs):
    return any(isinstance(x, (Cx, complex)) for x in xs)


def lift_cx(x):
    if isinstance(x, Cx):
        return x
    if isinstance(x, complex):
        return Cx(x.real, x.imag)
    return Cx(x, 0)


def isfinite_flag(x):
    """Bool: scalar is finite"""
    if isinstance(x, Cx):
        return b_and(isfinite_flag(x.re), isfinite_flag(x.im))
    if isinstance(x, Ext):
        return b_not(b_or(x.pinf, x.ninf, x.nan))
    if isinstance(x, float):
        return math.isfinite(x)
    return True


# ---------------------------------------------------------------- ite
def ite(c, a, b):
    c = norm_bool(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if needs_cx(a, b):
        a, b = lift_cx(a), lift_cx(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if needs_ext(a, b):
        a, b = lift_ext(a), lift_ext(b)
        return mk_ext(ite(c, a.val, b.val), ite(c, a.pinf, b.pinf),
                      ite(c, a.ninf, b.ninf), ite(c, a.nan, b.nan))
    if is_conc(a) and is_conc(b) and type(a) == type(b) and a == b:
        return a
    if is_z3(a) and is_z3(b) and a.eq(b):
        return a
    if is_boollike(a) and is_boollike(b):
        return z3.If(c, zb(a), zb(b))
    if is_intlike(a) and is_intlike(b):
        return z3.If(c, zi(a), zi(b))
    return z3.If(c, zr(a), zr(b))


def components(v):
    """list of z3/py components making up a scalar (for equality)"""
    if isinstance(v, Cx):
        return components(v.re) + components(v.im)
    if isinstance(v, Ext):
        return [v.val, v.pinf, v.ninf, v.nan]
    return [v]


def map_components(f, v):
    if isinstance(v, Cx):
        return Cx(map_components(f, v.re), map_components(f, v.im))
    if isinstance(v, Ext):
        return mk_ext(f(v.val), f(v.pinf), f(v.ninf), f(v.nan))
    return f(v)


def z3ify(v):
    """component -> z3 term"""
    if is_z3(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        return zr(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    raise Unsupported('z3ify %r' % (v,))


def unz3(t):
    """z3 literal -> python int/bool when possible (ints and bools only)"""
    if is_z3(t):
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    return t


def simp(v):
    """light simplification of a scalar"""
    def f(t):
        if is_z3(t):
            return unz3(z3.simplify(t))
        return t
    return map_components(f, v)

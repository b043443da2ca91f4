"""Scalar operations (Python / numpy semantics over the reals)."""
import math
import operator
from fractions import Fraction
import z3
from .values import *
from .values import norm_bool
from . import prover as P
from .state import ctx


def _conc(*xs):
    return all(is_conc(x) for x in xs)


# ------------------------------------------------------------------ arithmetic
def neg(a):
    if is_conc(a):
        return -a
    if isinstance(a, Cx):
        return Cx(neg(a.re), neg(a.im))
    if isinstance(a, Ext):
        return mk_ext(neg(a.val), a.ninf, a.pinf, a.nan)
    if z3.is_bool(a):
        a = zi(a)
    return -a


def add(a, b):
    if _conc(a, b):
        return a + b
    if needs_cx(a, b):
        a, b = lift_cx(a), lift_cx(b)
        return Cx(add(a.re, b.re), add(a.im, b.im))
    if needs_ext(a, b):
        a, b = lift_ext(a), lift_ext(b)
        nan = b_or(a.nan, b.nan, b_and(a.pinf, b.ninf), b_and(a.ninf, b.pinf))
        return mk_ext(add(a.val, b.val), b_and(b_or(a.pinf, b.pinf), b_not(nan)),
                      b_and(b_or(a.ninf, b.ninf), b_not(nan)), nan)
    if is_conc(a) and a == 0 and not is_boollike(b):
        return b if (isinstance(a, int) or not is_intlike(b)) else zr(b)
    if is_conc(b) and b == 0 and not is_boollike(a):
        return a if (isinstance(b, int) or not is_intlike(a)) else zr(a)
    if is_intlike(a) and is_intlike(b):
        return zi(a) + zi(b)
    return zr(a) + zr(b)


def sub(a, b):
    if _conc(a, b):
        return a - b
    if needs_cx(a, b):
        a, b = lift_cx(a), lift_cx(b)
        return Cx(sub(a.re, b.re), sub(a.im, b.im))
    if needs_ext(a, b):
        return add(a, neg(b))
    if is_conc(b) and b == 0 and not is_boollike(a):
        return a if (isinstance(b, int) or not is_intlike(a)) else zr(a)
    if is_intlike(a) and is_intlike(b):
        return zi(a) - zi(b)
    return zr(a) - zr(b)


def mul(a, b):
    if _conc(a, b):
        return a * b
    if needs_cx(a, b):
        if not needs_cx(a):
            b = lift_cx(b)
            return Cx(mul(a, b.re), mul(a, b.im))
        if not needs_cx(b):
            a = lift_cx(a)
            return Cx(mul(a.re, b), mul(a.im, b))
        a, b = lift_cx(a), lift_cx(b)
        return Cx(sub(mul(a.re, b.re), mul(a.im, b.im)),
                  add(mul(a.re, b.im), mul(a.im, b.re)))
    if needs_ext(a, b):
        a, b = lift_ext(a), lift_ext(b)
        ainf, binf = b_or(a.pinf, a.ninf), b_or(b.pinf, b.ninf)

        def sgn_pos(e):
            return b_or(e.pinf, b_and(b_not(b_or(e.pinf, e.ninf)), gt(e.val, 0)))

        def sgn_neg(e):
            return b_or(e.ninf, b_and(b_not(b_or(e.pinf, e.ninf)), lt(e.val, 0)))
        anyinf = b_or(ainf, binf)
        pos = b_or(b_and(sgn_pos(a), sgn_pos(b)), b_and(sgn_neg(a), sgn_neg(b)))
        neg_ = b_or(b_and(sgn_pos(a), sgn_neg(b)), b_and(sgn_neg(a), sgn_pos(b)))
        nan = b_or(a.nan, b.nan, b_and(anyinf, b_not(pos), b_not(neg_)))
        return mk_ext(mul(a.val, b.val), b_and(anyinf, pos, b_not(nan)),
                      b_and(anyinf, neg_, b_not(nan)), nan)
    for x, y in ((a, b), (b, a)):
        if is_conc(x) and not isinstance(x, bool) and not is_boollike(y):
            if x == 1 and (isinstance(x, int) or not is_intlike(y)):
                return y
            if x == 0 and (isinstance(x, int) and is_intlike(y)):
                return 0
            if x == 0:
                return 0.0
    if is_intlike(a) and is_intlike(b):
        return zi(a) * zi(b)
    return zr(a) * zr(b)


def div(a, b, mode='py'):
    """mode 'py': a zero divisor is an error (obligation);
       mode 'np': IEEE result (inf / nan) when the divisor may be zero."""
    if _conc(a, b):
        if b == 0:
            if mode == 'py':
                raise SymRaise('ZeroDivisionError', 'division by zero')
            return float('nan') if a == 0 else math.copysign(float('inf'), a)
        return a / b
    if needs_cx(a, b):
        if not needs_cx(b):
            a = lift_cx(a)
            return Cx(div(a.re, b, mode), div(a.im, b, mode))
        a, b = lift_cx(a), lift_cx(b)
        if is_conc(b.im) and b.im == 0 and ctx.entails(ne(b.re, 0)):
            return Cx(div(a.re, b.re, mode), div(a.im, b.re, mode))
        den = add(mul(b.re, b.re), mul(b.im, b.im))
        nr = add(mul(a.re, b.re), mul(a.im, b.im))
        ni = sub(mul(a.im, b.re), mul(a.re, b.im))
        return Cx(div(nr, den, mode), div(ni, den, mode))
    if needs_ext(a, b):
        a, b = lift_ext(a), lift_ext(b)
        ainf, binf = b_or(a.pinf, a.ninf), b_or(b.pinf, b.ninf)
        bz = b_and(b_not(binf), eq(b.val, 0))
        if mode == 'py':
            ctx.oblige('nonzero-divisor', b_not(bz))
            bz = False
        sp, sn = gt(b.val, 0), lt(b.val, 0)
        if binf is not False:
            sp, sn = b_or(b.pinf, b_and(b_not(binf), sp)), b_or(b.ninf, b_and(b_not(binf), sn))
        nan = b_or(a.nan, b.nan, b_and(ainf, binf),
                   b_and(bz, b_not(ainf), eq(a.val, 0)))
        az_p, az_n = gt(a.val, 0), lt(a.val, 0)
        pinf = b_and(b_not(nan), b_or(b_and(a.pinf, b_or(sp, bz)), b_and(a.ninf, sn),
                                      b_and(bz, b_not(ainf), az_p)))
        ninf = b_and(b_not(nan), b_or(b_and(a.ninf, b_or(sp, bz)), b_and(a.pinf, sn),
                                      b_and(bz, b_not(ainf), az_n)))
        q = _zdiv(a.val, b.val)
        if binf is not False:
            q = ite(binf, 0.0, q)
        return mk_ext(q, pinf, ninf, nan)
    if is_conc(b):
        if b == 0:
            if mode == 'py':
                raise SymRaise('ZeroDivisionError', 'division by zero')
            return mk_ext(0, gt(a, 0), lt(a, 0), eq(a, 0))
        return zr(a) / zr(b)
    if mode == 'py':
        ctx.oblige('nonzero-divisor', ne(b, 0))
        return _zdiv(a, b)
    if mode == 'raw':
        return _zdiv(a, b)
    bz = eq(b, 0)
    if ctx.entails(b_not(bz)):
        return _zdiv(a, b)
    return mk_ext(_zdiv(a, b), b_and(bz, gt(a, 0)), b_and(bz, lt(a, 0)),
                  b_and(bz, eq(a, 0)))


def _zdiv(a, b):
    if _conc(a, b):
        return a / b if b != 0 else 0.0
    if is_conc(a) and a == 0:
        return 0.0                # the divisor is not zero here
    return zr(a) / zr(b)


def floordiv(a, b):
    if _conc(a, b):
        return a // b
    if is_intlike(a) and is_intlike(b):
        ctx.oblige('nonzero-divisor', ne(b, 0))
        if ctx.entails(gt(b, 0)):
            return zi(a) / zi(b)      # z3 div == floor for positive divisors
        return z3.If(zi(b) > 0, zi(a) / zi(b), (-zi(a)) / (-zi(b)))
    return floor_(div(a, b))


def mod(a, b):
    if isinstance(a, str):
        return a % b
    if _conc(a, b):
        return a % b
    if is_intlike(a) and is_intlike(b):
        ctx.oblige('nonzero-divisor', ne(b, 0))
        if ctx.entails(gt(b, 0)):
            return zi(a) % zi(b)
        return sub(a, mul(b, floordiv(a, b)))
    return sub(a, mul(b, z3.ToReal(zi(floor_(div(a, b))))))


def pow_(a, b):
    if _conc(a, b):
        return a ** b
    if isinstance(b, float) and b == int(b):
        b = int(b)
    if isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 8:
        if b == 0:
            return 1 if is_intlike(a) else 1.0
        r = a
        for _ in range(b - 1):
            r = mul(r, a)
        return r
    if isinstance(b, int) and -8 <= b < 0:
        return div(1.0, pow_(a, -b), 'np')
    if needs_cx(a, b):
        raise Unsupported('complex power')
    if isinstance(b, float) and b == .5:
        return sqrt(a)
    if isinstance(b, float) and 1 < b < 9 and b % 1 == .5:
        return mul(pow_(a, int(b)), sqrt(a))
    if isinstance(b, float) and -9 < b < 0 and b % 1 == .5:
        return div(1.0, pow_(a, -b), 'np')
    if isinstance(a, (int, float)) and a == 2 and not needs_ext(b):
        if is_intlike(b):
            return P.uf('pow2', P.R, P.R)(zr(b))
        return P.uf('pow2', P.R, P.R)(zr(b))
    if isinstance(a, int) and a == -1 and is_intlike(b):
        return z3.If(zi(b) % 2 == 0, z3.IntVal(1), z3.IntVal(-1))
    if needs_ext(a, b):
        raise Unsupported('power of extended reals')
    return P.uf_real('powr', a, b)


# ------------------------------------------------------------------ comparisons
def _cmp(op, a, b):
    if _conc(a, b):
        return op(a, b)
    if needs_ext(a, b):
        raise AssertionError
    if is_boollike(a) and is_boollike(b) and op in (operator.eq, operator.ne):
        return op(zb(a), zb(b))
    if is_intlike(a) and is_intlike(b):
        return norm_bool(op(zi(a), zi(b)))
    return norm_bool(op(zr(a), zr(b)))


def eq(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, (str, tuple, list, dict, set, type)) or \
            isinstance(b, (str, tuple, list, dict, set, type)):
        return _struct_eq(a, b)
    if needs_cx(a, b):
        a, b = lift_cx(a), lift_cx(b)
        return b_and(eq(a.re, b.re), eq(a.im, b.im))
    if needs_ext(a, b):
        a, b = lift_ext(a), lift_ext(b)
        fa = b_not(b_or(a.pinf, a.ninf, a.nan))
        fb = b_not(b_or(b.pinf, b.ninf, b.nan))
        return b_or(b_and(fa, fb, eq(a.val, b.val)), b_and(a.pinf, b.pinf),
                    b_and(a.ninf, b.ninf))
    return _cmp(operator.eq, a, b)


def _struct_eq(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if type(a) != type(b) or len(a) != len(b):
            return False
        return b_and(*[eq(x, y) for x, y in zip(a, b)])
    if is_z3(a) or is_z3(b) or isinstance(a, (Cx, Ext)) or isinstance(b, (Cx, Ext)):
        return False
    return a == b


def ne(a, b):
    return b_not(eq(a, b))


def lt(a, b):
    if needs_ext(a, b):
        a, b = lift_ext(a), lift_ext(b)
        nan = b_or(a.nan, b.nan)
        fa, fb = b_not(b_or(a.pinf, a.ninf)), b_not(b_or(b.pinf, b.ninf))
        return b_and(b_not(nan), b_or(b_and(fa, fb, lt(a.val, b.val)),
                                      b_and(a.ninf, b_not(b.ninf)),
                                      b_and(b.pinf, b_not(a.pinf))))
    if needs_cx(a, b):
        raise Unsupported('ordering complex numbers')
    return _cmp(operator.lt, a, b)


def le(a, b):
    if needs_ext(a, b):
        la, lb = lift_ext(a), lift_ext(b)
        return b_and(b_not(b_or(la.nan, lb.nan)), b_or(lt(a, b), eq(a, b)))
    if needs_cx(a, b):
        raise Unsupported('ordering complex numbers')
    return _cmp(operator.le, a, b)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


# strict identity used in specifications: same number, same infinity, both nan
def same(a, b):
    if needs_cx(a, b):
        a, b = lift_cx(a), lift_cx(b)
        return b_and(same(a.re, b.re), same(a.im, b.im))
    if needs_ext(a, b):
        a, b = lift_ext(a), lift_ext(b)
        fa = b_not(b_or(a.pinf, a.ninf, a.nan))
        return b_and(_beq(a.pinf, b.pinf), _beq(a.ninf, b.ninf), _beq(a.nan, b.nan),
                     b_implies(fa, eq(a.val, b.val)))
    return eq(a, b)


def _beq(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return norm_bool(zb(a) == zb(b))


# ------------------------------------------------------------------ functions
def fabs(a):
    if is_conc(a):
        return abs(a)
    if isinstance(a, Cx):
        if _conc(a.re, a.im):
            return abs(complex(a.re, a.im))
        if is_conc(a.im) and a.im == 0:
            return fabs(a.re)
        if needs_ext(a.re, a.im):
            raise Unsupported('abs of non-finite complex')
        return P.cabs(zr(a.re), zr(a.im))
    if isinstance(a, Ext):
        return mk_ext(fabs(a.val), b_or(a.pinf, a.ninf), False, a.nan)
    if z3.is_bool(a):
        return a
    return z3.If(a >= 0, a, -a)


def max2(a, b):
    """Python's max(a, b): a unless b > a"""
    if _conc(a, b):
        return max(a, b)
    if isinstance(b, Ext) or isinstance(a, Ext):
        return ite(gt(b, a), b, a)
    c = norm_bool(gt(b, a))
    if not isinstance(c, bool):
        c = ctx.simplify_cond(c)
    return ite(c, b, a)


def min2(a, b):
    if _conc(a, b):
        return min(a, b)
    c = norm_bool(lt(b, a))
    if not isinstance(c, bool) and not isinstance(a, Ext) and not isinstance(b, Ext):
        c = ctx.simplify_cond(c)
    return ite(c, b, a)


def np_max2(a, b):
    """np.maximum: nan-propagating"""
    if isinstance(a, Ext) or isinstance(b, Ext) or needs_ext(a, b):
        la, lb = lift_ext(a), lift_ext(b)
        nan = b_or(la.nan, lb.nan)
        r = lift_ext(ite(gt(b, a), b, a))
        return mk_ext(r.val, b_and(r.pinf, b_not(nan)), b_and(r.ninf, b_not(nan)), nan)
    return max2(a, b)


def np_min2(a, b):
    if needs_ext(a, b):
        la, lb = lift_ext(a), lift_ext(b)
        nan = b_or(la.nan, lb.nan)
        r = lift_ext(ite(lt(b, a), b, a))
        return mk_ext(r.val, b_and(r.pinf, b_not(nan)), b_and(r.ninf, b_not(nan)), nan)
    return min2(a, b)


def _finite_int(a, what):
    if isinstance(a, Ext):
        ctx.oblige(what + '-of-finite', isfinite_flag(a))
        return a.val
    return a


def round_even(a):
    """round(x) -> nearest integer, ties to even (result Int)"""
    if isinstance(a, Ext):
        a = _finite_int(a, 'round')
    if is_conc(a):
        return round(a)
    if is_intlike(a):
        return a
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL:
        return a.arg(0)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
        return ite(a.arg(0), round_even(a.arg(1)), round_even(a.arg(2)))
    s = z3.simplify(a)
    if z3.is_rational_value(s):
        return round(Fraction(s.numerator_as_long(), s.denominator_as_long()))
    return P.rnd(a)


def floor_(a):
    if isinstance(a, Ext):
        a = _finite_int(a, 'floor')
    if is_conc(a):
        return math.floor(a)
    if is_intlike(a):
        return a
    return unz3(z3.simplify(z3.ToInt(a)))


def ceil_(a):
    if isinstance(a, Ext):
        a = _finite_int(a, 'ceil')
    if is_conc(a):
        return math.ceil(a)
    if is_intlike(a):
        return a
    return neg(z3.ToInt(-a))


def trunc_(a):
    """int(x)"""
    if isinstance(a, Ext):
        a = _finite_int(a, 'int')
    if is_conc(a):
        return int(a)
    if is_intlike(a):
        return zi(a) if z3.is_bool(a) else a
    if isinstance(a, Cx):
        raise Unsupported('int(complex)')
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL:
        return a.arg(0)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
        return ite(a.arg(0), trunc_(a.arg(1)), trunc_(a.arg(2)))
    s = z3.simplify(a)
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_TO_REAL:
        return s.arg(0)
    if z3.is_rational_value(s):
        return int(Fraction(s.numerator_as_long(), s.denominator_as_long()))
    return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))


def to_float(a):
    if is_conc(a):
        return float(a) if not isinstance(a, complex) else a
    if isinstance(a, (Ext, Cx)):
        return a
    return zr(a)


def log_(name, a):
    if is_conc(a):
        if a == 0:
            return -float('inf')
        if a < 0:
            return float('nan')
        if math.isinf(a):
            return a
        return getattr(math, name)(a)
    fn = P.uf(name, P.R, P.R)
    if isinstance(a, Ext):
        z = b_and(b_not(b_or(a.pinf, a.ninf, a.nan)), eq(a.val, 0))
        ng = b_and(b_not(b_or(a.pinf, a.ninf, a.nan)), lt(a.val, 0))
        return mk_ext(fn(zr(a.val)), a.pinf, z, b_or(a.nan, a.ninf, ng))
    if isinstance(a, Cx):
        raise Unsupported('complex log')
    if z3.is_app(a) and a.decl().name() == 'pow2':
        # logarithm of a power of two (the logarithm of 2 is that of the library)
        return mul(a.arg(0), getattr(math, name)(2))
    if ctx.entails(gt(a, 0)):
        return fn(zr(a))
    z = eq(a, 0)
    ng = lt(a, 0)
    if ctx.entails(ge(a, 0)):
        ng = False
    return mk_ext(fn(zr(a)), False, z, ng)


def exp_(a):
    if is_conc(a) and not isinstance(a, complex):
        return math.exp(a) if not (math.isinf(a) or math.isnan(a)) else \
            (0.0 if a < 0 else a)
    if isinstance(a, (Cx, complex)):
        a = lift_cx(a)
        m = exp_(a.re) if not (is_conc(a.re) and a.re == 0) else 1.0
        return Cx(mul(m, trig('cos', a.im)), mul(m, trig('sin', a.im)))
    if isinstance(a, Ext):
        return mk_ext(ite(a.ninf, 0.0, P.uf('exp', P.R, P.R)(zr(a.val))), a.pinf,
                      False, a.nan)
    return P.uf('exp', P.R, P.R)(zr(a))


def trig(name, a):
    if is_conc(a):
        return getattr(math, name)(a)
    if isinstance(a, (Ext, Cx)):
        raise Unsupported(name)
    return P.uf(name, P.R, P.R)(zr(a))


def sqrt(a):
    if is_conc(a):
        return math.sqrt(a) if a >= 0 else float('nan')
    if isinstance(a, (Ext, Cx)):
        raise Unsupported('sqrt of complex/extended')
    return P.uf('sqrt', P.R, P.R)(zr(a))


def isinf(a):
    if isinstance(a, Cx):
        return b_or(isinf(a.re), isinf(a.im))
    if isinstance(a, Ext):
        return b_or(a.pinf, a.ninf)
    if isinstance(a, float):
        return math.isinf(a)
    return False


def isnan(a):
    if isinstance(a, Cx):
        return b_or(isnan(a.re), isnan(a.im))
    if isinstance(a, Ext):
        return a.nan
    if isinstance(a, float):
        return math.isnan(a)
    return False


def conj(a):
    if isinstance(a, (Cx, complex)):
        a = lift_cx(a)
        return Cx(a.re, neg(a.im))
    return a


def re(a):
    return lift_cx(a).re if needs_cx(a) else a


def im(a):
    return lift_cx(a).im if needs_cx(a) else 0.0


def truth(a):
    """Bool of a scalar"""
    if is_boollike(a):
        return a
    if is_conc(a):
        return bool(a)
    if isinstance(a, Ext):
        return b_or(a.pinf, a.ninf, a.nan, ne(a.val, 0))
    if isinstance(a, Cx):
        return b_or(ne(a.re, 0), ne(a.im, 0))
    return norm_bool(ne(a, 0))

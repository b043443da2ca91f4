"""Symbolic n-d arrays: buffers with persistent states, views, effects."""
import itertools
import z3
from .values import *
from .values import norm_bool
from . import ops as O
from . import prover as P
from .state import ctx


# ------------------------------------------------------------------ dtypes
class DType:
    TABLE = {'float64': ('f', 64), 'float32': ('f', 32), 'complex128': ('c', 128),
             'complex64': ('c', 64), 'int64': ('i', 64), 'int32': ('i', 32),
             'bool': ('b', 8)}
    ALIAS = {'float': 'float64', 'complex': 'complex128', 'int': 'int64',
             'bool_': 'bool', '<f8': 'float64', '<f4': 'float32'}
    _inst = {}

    def __new__(cls, name):
        name = cls.ALIAS.get(name, name)
        if name not in cls.TABLE:
            raise Unsupported('dtype %s' % name)
        if name not in cls._inst:
            o = object.__new__(cls)
            o.name = name
            o.kind, o.bits = cls.TABLE[name]
            cls._inst[name] = o
        return cls._inst[name]

    def __repr__(self):
        return 'dtype(%s)' % self.name

    def __str__(self):
        return self.name

    def __eq__(self, o):
        try:
            return as_dtype(o) is self
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.name)


def as_dtype(d):
    if isinstance(d, DType):
        return d
    if isinstance(d, str):
        return DType(d)
    if d is float:
        return DType('float64')
    if d is complex:
        return DType('complex128')
    if d is int:
        return DType('int64')
    if d is bool:
        return DType('bool')
    if hasattr(d, 'pyvc_dtype'):
        return d.pyvc_dtype
    raise Unsupported('dtype %r' % (d,))


F64, F32, C128, C64, I64, I32, BOOL = map(DType, (
    'float64', 'float32', 'complex128', 'complex64', 'int64', 'int32', 'bool'))


def result_dtype(a, b):
    """numpy promotion for two array dtypes"""
    if a is b:
        return a
    ka, kb = a.kind, b.kind
    if 'c' in (ka, kb):
        def prec(d):
            return {'c': d.bits // 2, 'f': d.bits, 'i': 64 if d.bits > 16 else 32,
                    'b': 32}[d.kind]
        return C64 if max(prec(a), prec(b)) <= 32 else C128
    if 'f' in (ka, kb):
        def prec(d):
            return {'f': d.bits, 'i': 64, 'b': 32}[d.kind]
        return F32 if max(prec(a), prec(b)) <= 32 else F64
    if 'i' in (ka, kb):
        return I64 if 64 in (a.bits, b.bits) and (ka == 'i' or kb == 'i') else I32
    return BOOL


def scalar_dtype(v):
    if isinstance(v, (Cx, complex)):
        return C128
    if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)):
        return BOOL
    if is_intlike(v):
        return I64
    return F64


def promote_scalar(d, v):
    """array dtype `d` combined with a python scalar"""
    s = scalar_dtype(v)
    order = {'b': 0, 'i': 1, 'f': 2, 'c': 3}
    if order[s.kind] <= order[d.kind]:
        return d
    if s.kind == 'c':
        return C64 if (d.kind == 'f' and d.bits == 32) else C128
    return s


# ------------------------------------------------------------------ effects
class Effect:
    """for all bounds with guard:  buf[idx] (set|add) val"""
    __slots__ = ('buf', 'bounds', 'guard', 'idx', 'kind', 'val')

    def __init__(self, buf, bounds, guard, idx, kind, val):
        self.buf, self.bounds, self.guard = buf, list(bounds), guard
        self.idx, self.kind, self.val = tuple(idx), kind, val

    def rename(self):
        """copy with fresh bound variables"""
        sub = [(v, P.bindvar('r')) for v, _, _ in self.bounds]
        return self.subst(sub, dict((v.get_id(), w) for v, w in sub))

    def subst(self, sub, ren=None):
        if not sub:
            return self

        def S(t):
            return z3.substitute(t, *sub) if is_z3(t) else t
        bounds = [((ren or {}).get(v.get_id(), v), S(lo), S(hi))
                  for v, lo, hi in self.bounds]
        return Effect(self.buf, bounds, S(self.guard), [S(t) for t in self.idx],
                      self.kind, map_components(S, self.val))

    def map_terms(self, f):
        return Effect(self.buf, [(v, f(lo), f(hi)) for v, lo, hi in self.bounds],
                      f(self.guard), [f(t) for t in self.idx], self.kind,
                      map_components(f, self.val))

    def range_cond(self):
        return b_and(*[b_and(O.le(lo, v), O.lt(v, hi)) for v, lo, hi in self.bounds])

    def __repr__(self):
        return 'Effect(%s %s[%s] %s %s | %s | %s)' % (
            self.kind, self.buf.name, self.idx, self.kind, self.val, self.guard,
            self.bounds)


def lin_coeff(t, v):
    """t == c*v + rest with c free of v  -> (c, rest) or None"""
    if not is_z3(t):
        return None
    if not P.contains(t, [v]):
        return None
    rest = z3.simplify(z3.substitute(t, (v, z3.IntVal(0))))
    c = z3.simplify(z3.substitute(t, (v, z3.IntVal(1))) - rest)
    if P.contains(c, [v]) or P.contains(rest, [v]):
        return None
    chk = z3.simplify(t - (c * v + rest), som=True)
    if not (z3.is_int_value(chk) and chk.as_long() == 0):
        return None
    return c, rest


def _divmod_pair(eqs, conds):
    """X div N == p and X mod N == q  ->  X == p N + q, 0 <= q < N"""
    for a, (e, p) in enumerate(eqs):
        if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_IDIV):
            continue
        X, n = e.arg(0), e.arg(1)
        for b, (f, q) in enumerate(eqs):
            if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_MOD and f.arg(0).eq(X) \
                    and f.arg(1).eq(n) and ctx.entails(n > 0):
                conds += [q >= 0, q < n]
                for k in sorted((a, b), reverse=True):
                    del eqs[k]
                eqs.append((X, z3.simplify(p * n + q)))
                return True
    return False


def solve_hit(eff, idx):
    """conditions and values for `eff` to hit buffer index `idx`:
    -> (remaining_bounds, cond, val)"""
    eqs = []
    for e, p in zip(eff.idx, idx):
        eqs.append((zi(e), zi(p)))
    bounds = list(eff.bounds)
    guard, val = eff.guard, eff.val
    conds = []
    progress = True
    sub_all = []
    while progress and bounds:
        progress = False
        cand = []
        for bi, (v, lo, hi) in enumerate(bounds):
            for ei, (e, p) in enumerate(eqs):
                lc = lin_coeff(e, v)
                if lc is None:
                    continue
                c, rest = lc
                others = sum(1 for w, _, _ in bounds if not w.eq(v) and P.contains(e, [w]))
                unit = z3.is_int_value(c) and abs(c.as_long()) == 1
                if others and not unit:
                    continue
                cand.append((others, 0 if unit else 1, bi, ei, c, rest))
        if not cand:
            if _divmod_pair(eqs, conds):
                progress = True
                continue
            break
        cand.sort(key=lambda t: t[:4])
        others, nonunit, bi, ei, c, rest = cand[0]
        v, lo, hi = bounds[bi]
        e, p = eqs[ei]
        if nonunit == 0:
            sol = (p - rest) if c.as_long() == 1 else (rest - p)
        else:
            if z3.is_int_value(c):
                if c.as_long() == 0:
                    break
            elif not ctx.entails(c > 0):
                break
            conds.append((p - rest) % c == 0)
            sol = (p - rest) / c
        sol = z3.simplify(sol)
        sub = [(v, sol)]
        conds = [z3.substitute(x, *sub) if is_z3(x) else x for x in conds]
        conds += [O.le(lo, sol), O.lt(sol, hi)]
        del bounds[bi]
        del eqs[ei]

        def S(t):
            return z3.substitute(t, *sub) if is_z3(t) else t
        eqs = [(S(a), S(b)) for a, b in eqs]
        bounds = [(w, S(l), S(h)) for w, l, h in bounds]
        conds = [S(x) for x in conds]
        guard = S(guard)
        val = map_components(S, val)
        progress = True
    conds += [norm_bool(a == b) for a, b in eqs]
    cond = b_and(guard, *conds)
    return bounds, norm_bool(cond), val


# ------------------------------------------------------------------ states
class Base:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class Write:
    __slots__ = ('parent', 'eff')

    def __init__(self, parent, eff):
        self.parent, self.eff = parent, eff


class IterStart:
    """state at the start of an arbitrary iteration of a symbolic loop"""
    __slots__ = ('frame', 'buf', 'parent')

    def __init__(self, frame, buf, parent):
        self.frame, self.buf, self.parent = frame, buf, parent


class Rec:
    """state after a loop carrying a recurrence; `out` symbol(s), `defn(idx)`"""
    __slots__ = ('out', 'defn', 'seen')

    def __init__(self, out, defn):
        self.out, self.defn, self.seen = out, defn, {}


def read_state(st, idx):
    if isinstance(st, Base):
        return st.fn(idx)
    if isinstance(st, IterStart):
        return st.frame.rd(st.buf, idx)
    if isinstance(st, Rec):
        v = st.out(idx)
        key = tuple(zi(i).get_id() for i in idx)
        if key not in st.seen:
            st.seen[key] = [zi(i) for i in idx] + [None]
            d = st.defn(idx)
            c = zb(O.same(v, d))
            st.seen[key][-1] = c
        c = st.seen[key][-1]
        if c is not None and not any(c is x or c.eq(x) for x in ctx.pc):
            ctx.pc.append(c)
        return v
    if isinstance(st, Write):
        bounds, cond, val = solve_hit(st.eff, idx)
        if cond is False:
            return read_state(st.parent, idx)
        if not isinstance(cond, bool):
            cond = ctx.simplify_cond(cond) if not bounds else cond
        if cond is False:
            return read_state(st.parent, idx)
        if st.eff.kind == 'set':
            if not bounds:
                if cond is True:
                    return val
                return ite(cond, val, read_state(st.parent, idx))
            return _read_unsolved_set(st, idx, bounds, cond, val)
        old = read_state(st.parent, idx)
        if not bounds:
            return O.add(old, ite(cond, val, 0))
        return O.add(old, make_sum(bounds, cond, val))
    raise AssertionError(st)


def make_sum(bounds, cond, val):
    """finite sum over integer bounds of [cond] val"""
    def S(v):
        if is_conc(v) and v == 0:
            return 0.0
        body = ite(cond, v, 0.0)
        if is_z3(body) and P.small(body):
            z = z3.simplify(body, som=True)
            if z3.is_rational_value(z) and z.numerator_as_long() == 0:
                return 0.0
        return P.functional('sum', bounds, [zr(body)], P.R)
    if isinstance(val, Ext):
        raise Unsupported('sum of extended reals')
    return map_components(S, val)


def _read_unsolved_set(st, idx, bounds, cond, val):
    vs = [b[0] for b in bounds]
    comps = [c for c in components(val) if is_z3(c)]
    dep = any(P.contains(c, vs) for c in comps)
    if len(bounds) > 1:
        if dep:
            raise Unsupported('last writer over several loop variables')
        q = zb(cond)
        ex = z3.Exists(vs, z3.And(*[z3.And(zi(lo) <= v, v < zi(hi))
                                    for v, lo, hi in bounds], q))
        return ite(ex, val, read_state(st.parent, idx))
    v, lo, hi = bounds[0]
    L = P.functional('last', bounds, [zb(cond)], P.I)
    hit = O.ge(L, lo)

    def S(t):
        return z3.substitute(t, (v, L)) if is_z3(t) else t
    return ite(hit, map_components(S, val), read_state(st.parent, idx))


# ------------------------------------------------------------------ buffers
_bufno = itertools.count()


class Buf:
    def __init__(self, shape, dtype, state, name=None):
        self.shape, self.dtype, self.state = tuple(shape), dtype, state
        self.no = next(_bufno)
        self.name = name or 'buf%d' % self.no
        self.depth = len(ctx.frames)
        self.birth = ctx.frames[-1] if ctx.frames else None
        self.state0 = state
        self.ext = False          # elements may be non-finite
        self.written = False
        ctx.bufs.append(self)


def dims_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return ctx.entails(O.eq(a, b))


class Arr:
    """n-d array (view of a buffer)"""
    __slots__ = ('buf', 'shape', 'imap', 'tags')

    def __init__(self, buf, shape, imap=None):
        self.buf, self.shape = buf, tuple(shape)
        self.imap = imap or (lambda idx: idx)
        self.tags = {}

    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def ndim(self):
        return len(self.shape)

    def snap(self):
        st, im = self.buf.state, self.imap

        def f(*idx):
            return read_state(st, im(tuple(idx)))
        return f

    def at(self, *idx):
        return read_state(self.buf.state, self.imap(tuple(idx)))

    def __repr__(self):
        return 'Arr(%s, %s, %s)' % (self.buf.name, self.shape, self.dtype)


def memo_fn(fn):
    cache = {}

    def g(idx):
        key = tuple(i if isinstance(i, int) else ('z', i.get_id()) for i in idx)
        if key in cache:
            # a value simplified under a path condition is only valid under it
            r, _, pc0 = cache[key]
            if len(pc0) <= len(ctx.pc) and all(a is b or a.eq(b) for a, b in zip(
                    pc0, ctx.pc)):
                return r
        ctx.quiet += 1
        try:
            pc0 = list(ctx.pc)
            r = fn(*idx)
        finally:
            ctx.quiet -= 1
        cache[key] = (r, idx, pc0)
        return r
    return g


def new_arr(shape, dtype, fn, name=None):
    """fresh array with elements fn(*idx)"""
    dtype = as_dtype(dtype)
    buf = Buf(shape, dtype, Base(fn_coerce(fn, dtype)), name)
    return Arr(buf, shape)


def fn_coerce(fn, dtype):
    k = dtype.kind

    def g(*idx):
        v = fn(*idx)
        return coerce(v, dtype)
    return memo_fn(g)


def coerce(v, dtype):
    """value as stored in an array of `dtype` (no obligations)"""
    k = dtype.kind
    if k == 'c':
        return lift_cx(v)
    if k == 'f':
        if isinstance(v, (Cx, complex)):
            v = lift_cx(v)
            return v.re
        if isinstance(v, bool) or is_intlike(v):
            return float(v) if is_conc(v) else zr(v)
        return v
    if k == 'i':
        if isinstance(v, (Cx, complex)):
            raise Unsupported('complex into int array')
        if is_intlike(v):
            return (int(v) if is_conc(v) else zi(v))
        return O.trunc_(v)
    if k == 'b':
        return O.truth(v)
    raise Unsupported('dtype %s' % dtype)


def store_check(v, dtype):
    """obligations on storing value `v` into an array of `dtype`"""
    if dtype.kind == 'i':
        if isinstance(v, Ext):
            ctx.oblige('int-conversion-of-finite', isfinite_flag(v))
            v = v.val
        lim = 2 ** (dtype.bits - 1)
        if is_conc(v):
            ctx.oblige('int-range', -lim <= v < lim)
        else:
            t = v if is_intlike(v) else O.trunc_(v)
            if dtype.bits == 32 or not is_intlike(v):
                ctx.oblige('int-range', b_and(O.le(-lim, t), O.lt(t, lim)))
    if dtype.kind == 'f' and isinstance(v, (Cx, complex)):
        c = lift_cx(v)
        if not (is_conc(c.im) and c.im == 0):
            raise SymRaise('TypeError', 'complex stored into real array')


# ------------------------------------------------------------------ symbols
def sym_array(name, shape, dtype, ext=False, nonneg=False):
    """an arbitrary input array"""
    dtype = as_dtype(dtype)
    n = len(shape)
    k = dtype.kind
    dom = [P.I] * n

    def app(suffix, sort):
        f = P.uf(name + suffix, *dom, sort)
        return lambda idx: f(*[zi(i) for i in idx]) if n else f()
    if k == 'c':
        fr, fi = app('.re', P.R), app('.im', P.R)
        fn = lambda *idx: Cx(fr(idx), fi(idx))
    elif k == 'f':
        fv = app('', P.R)
        if ext:
            fp, fnn, fna = (app('.pinf', P.B), app('.ninf', P.B), app('.nan', P.B))
            kinds = ext if isinstance(ext, str) else 'pnx'

            def fn(*idx):
                p = fp(idx) if 'p' in kinds else False
                m = b_and(fnn(idx), b_not(p)) if 'n' in kinds else False
                x = b_and(fna(idx), b_not(p), b_not(m)) if 'x' in kinds else False
                return mk_ext(fv(idx), p, m, x)
        else:
            fn = lambda *idx: fv(idx)
    elif k == 'i':
        fv = app('', P.I)
        fn = lambda *idx: fv(idx)
    else:
        fv = app('', P.B)
        fn = lambda *idx: fv(idx)
    buf = Buf(shape, dtype, Base(lambda idx: fn(*idx)), name)
    buf.ext = bool(ext)
    buf.input = True
    return Arr(buf, shape)


# ------------------------------------------------------------------ indexing
def hint_index(k, n):
    """propose the loop invariant 0 <= contents < n for an index array"""
    if is_z3(k) and z3.is_app(k) and k.decl().name() in ctx.rdreg:
        frame, buf = ctx.rdreg[k.decl().name()]
        if frame in ctx.frames and buf not in frame.inv and not ctx.entails(
                b_and(O.le(0, k), O.lt(k, n))):
            frame.propose(buf, n)


def norm_index(k, n):
    """normalise an integer index on an axis of length n (obligation: in range)"""
    if isinstance(k, float) and k == int(k):
        raise SymRaise('IndexError', 'float index')
    if isinstance(k, bool) or not is_intlike(k):
        raise Unsupported('index %r' % (k,))
    k = unz3(z3.simplify(k)) if is_z3(k) else k
    if isinstance(k, int) and isinstance(n, int):
        if not (-n <= k < n):
            raise SymRaise('IndexError', 'index %d out of bounds for size %d' % (k, n))
        return k + n if k < 0 else k
    hint_index(k, n)
    ctx.oblige('index-in-bounds', b_and(O.le(O.neg(n), k), O.lt(k, n)))
    if isinstance(k, int):
        return O.add(n, k) if k < 0 else k
    if ctx.entails(k >= 0):
        return k
    if ctx.entails(k < 0):
        return O.add(k, n)
    return z3.If(k < 0, k + zi(n), k)


def _clamp(v, n, lo_default, neg_ok=True):
    """python slice bound -> [0, n]"""
    v = unz3(z3.simplify(v)) if is_z3(v) else v
    if isinstance(v, int) and isinstance(n, int):
        if v < 0:
            v = max(v + n, 0)
        return min(v, n)
    if isinstance(v, int):
        if v == 0:
            return 0
        if v < 0:
            if ctx.entails(O.ge(n, -v)):
                return O.add(n, v)
            return O.max2(O.add(n, v), 0)
        if ctx.entails(O.le(v, n)):
            return v
        return O.min2(v, n)
    if ctx.entails(v >= 0):
        pass
    elif ctx.entails(v < 0):
        v = O.add(v, n)
        if not ctx.entails(O.ge(v, 0)):
            v = O.max2(v, 0)
    else:
        v = ite(v < 0, O.max2(O.add(v, n), 0), v)
    if ctx.entails(O.le(v, n)):
        return v
    return O.min2(v, n)


def slice_params(s, n):
    """-> (start, length, step) of a python slice on an axis of length n"""
    step = s.step if s.step is not None else 1
    step = unz3(z3.simplify(step)) if is_z3(step) else step
    if not isinstance(step, int):
        step_sym = True
        if not ctx.entails(O.gt(step, 0)):
            raise Unsupported('symbolic slice step')
    if isinstance(step, int) and step == 0:
        raise SymRaise('ValueError', 'slice step 0')
    for b in (s.start, s.stop):
        if b is not None and not is_intlike(b):
            raise SymRaise('TypeError', 'slice indices must be integers')
    if not isinstance(step, int) or step > 0:
        lo = 0 if s.start is None else _clamp(s.start, n, 0)
        hi = n if s.stop is None else _clamp(s.stop, n, n)
        ln = O.sub(hi, lo)
        if not (isinstance(step, int) and step == 1):
            ln = O.floordiv(O.add(ln, O.sub(step, 1)), step)
        ln = unz3(z3.simplify(ln)) if is_z3(ln) else ln
        if isinstance(ln, int):
            ln = max(ln, 0)
        elif not ctx.entails(ln >= 0):
            ln = O.max2(ln, 0)
        return lo, ln, step
    # negative step
    if s.start is None:
        st = O.sub(n, 1)
    else:
        v = s.start
        v = unz3(z3.simplify(v)) if is_z3(v) else v
        if isinstance(v, int) and v < 0:
            v = O.add(n, v)
        elif not isinstance(v, int) and not ctx.entails(v >= 0):
            raise Unsupported('sign of slice start')
        st = O.min2(v, O.sub(n, 1)) if not ctx.entails(O.le(v, O.sub(n, 1))) else v
        if not ctx.entails(O.ge(st, -1)):
            st = O.max2(st, -1)
    if s.stop is None:
        en = -1
    else:
        v = s.stop
        v = unz3(z3.simplify(v)) if is_z3(v) else v
        if isinstance(v, int) and v < 0:
            v = O.max2(O.add(n, v), -1)
        elif not isinstance(v, int) and not ctx.entails(v >= 0):
            raise Unsupported('sign of slice stop')
        en = v
    ln = O.floordiv(O.add(O.sub(st, en), -step - 1), -step)
    ln = unz3(z3.simplify(ln)) if is_z3(ln) else ln
    if isinstance(ln, int):
        ln = max(ln, 0)
    elif not ctx.entails(ln >= 0):
        ln = O.max2(ln, 0)
    return st, ln, step


class Masked:
    """a[mask] with a boolean mask (compressed values, unevaluated)"""
    def __init__(self, fn, mask, shape, dtype):
        self.fn, self.mask, self.shape, self.dtype = fn, mask, shape, dtype


class NzIdx:
    """np.where(mask)[axis]: ascending positions of the selected entries; usable as an
    index (acts as the mask), or for its first / last element when 1-D"""
    pyvc = True

    def __init__(self, mask, axis):
        self.mask, self.axis = mask, axis

    def _end(self, kind):
        if self.mask.ndim != 1:
            raise Unsupported('np.where element of a 2-D mask')
        n = self.mask.shape[0]
        v = P.bindvar('z')
        snap = self.mask.snap()
        k = P.functional(kind, [(v, 0, n)], [zb(norm_bool(snap(v)))], P.I)
        none = O.eq(k, -1 if kind == 'last' else n)
        if ctx.branch(none):
            raise SymRaise('IndexError', 'no entry selected')
        return k

    def __getitem__(self, i):
        if i == 0:
            return self._end('first')
        if i == -1:
            return self._end('last')
        raise Unsupported('element of np.where')

    def max(self):
        return self._end('last')

    def min(self):
        return self._end('first')


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    if any(isinstance(k, NzIdx) for k in key):
        if all(isinstance(k, NzIdx) and k.mask is key[0].mask and k.axis == i
               for i, k in enumerate(key)) and len(key) == key[0].mask.ndim:
            key = (key[0].mask,)
        else:
            raise Unsupported('partial np.where index')
    key = list(key)
    nd = sum(1 for k in key if k is not None and k is not Ellipsis and
             not (isinstance(k, Arr) and k.dtype.kind == 'b'))
    nd += sum(k.ndim for k in key if isinstance(k, Arr) and k.dtype.kind == 'b')
    if any(k is Ellipsis for k in key):
        i = next(i for i, k in enumerate(key) if k is Ellipsis)
        key[i:i + 1] = [slice(None)] * (a.ndim - nd)
    else:
        key += [slice(None)] * (a.ndim - nd)
    if nd > a.ndim:
        raise SymRaise('IndexError', 'too many indices')
    return key


def as_index_arr(k):
    """list / range / 0-d scalar used as fancy index -> Arr or scalar"""
    if isinstance(k, (list, range)):
        vals = list(k)
        return new_arr((len(vals),), I64, lambda i: pick(vals, i))
    if type(k).__name__ in ('SymRange', 'SymSeq'):
        from . import loops as L
        n, bind = L.iteration(k)
        return new_arr((n,), I64, bind)
    return k


def pick(vals, i):
    i = unz3(z3.simplify(i)) if is_z3(i) else i
    if isinstance(i, int):
        return vals[i]
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = ite(O.eq(i, j), vals[j], r)
    return r


def index_view(a, key):
    """basic / advanced indexing.
    -> ('view', shape, imap) | ('fancy', shape, imap) | ('mask', mask Arr)"""
    key = [as_index_arr(k) for k in expand_key(a, key)]
    if len(key) == 1 and isinstance(key[0], Arr) and key[0].dtype.kind == 'b':
        return ('mask', key[0], None)
    if len(key) > 1 and isinstance(key[0], Arr) and key[0].dtype.kind == 'b' and \
            key[0].ndim == a.ndim:
        return ('mask', key[0], None)
    fancy = [k for k in key if isinstance(k, Arr) and k.ndim > 0]
    if any(k.dtype.kind == 'b' for k in fancy):
        raise Unsupported('boolean mask in a tuple index')
    # 0-d integer arrays act as ints
    key = [k.at() if isinstance(k, Arr) and k.ndim == 0 else k for k in key]
    if fancy:
        fshape = fancy[0].shape
        for f in fancy[1:]:
            fshape = broadcast_shapes(fshape, f.shape)
    shape, comps = [], []      # comps: per buffer-view axis -> fn(view idx) -> index
    axis = 0
    fpos = None
    nf = len(fshape) if fancy else 0
    for k in key:
        if k is None:
            shape.append(1)
            continue
        n = a.shape[axis]
        if isinstance(k, slice):
            st, ln, step = slice_params(k, n)
            d = len(shape)
            shape.append(ln)
            comps.append(('s', d, st, step))
        elif isinstance(k, Arr):
            if fpos is None:
                fpos = len(shape)
                shape.extend(fshape)
            snap = k.snap()
            # in-range obligation for every element
            ivs = [P.bindvar('f') for _ in k.shape]
            npc = len(ctx.pc)
            for v, m in zip(ivs, k.shape):
                ctx.pc.append(zb(b_and(O.le(0, v), O.lt(v, m))))
            el = snap(*ivs)
            hint_index(el, n)
            ctx.oblige('index-in-bounds', b_and(O.le(O.neg(n), el), O.lt(el, n)))
            del ctx.pc[npc:]
            comps.append(('f', fpos, k.shape, snap, n))
        else:
            comps.append(('i', norm_index(k, n)))
        axis += 1

    imap0 = a.imap

    def imap(idx):
        out = []
        for c in comps:
            if c[0] == 's':
                _, d, st, step = c
                i = idx[d]
                out.append(O.add(st, O.mul(step, i)))
            elif c[0] == 'i':
                out.append(c[1])
            else:
                _, fp, kshape, snap, n = c
                sub = idx[fp:fp + nf]
                sub = sub[nf - len(kshape):]
                sub = [0 if (isinstance(m, int) and m == 1) else s
                       for s, m in zip(sub, kshape)]
                v = snap(*sub)
                if is_conc(v) and v < 0:
                    v = O.add(v, n)
                elif not is_conc(v) and not ctx.entails(v >= 0):
                    v = ite(O.lt(v, 0), O.add(v, n), v)
                out.append(v)
        return imap0(tuple(out))
    return ('fancy' if fancy else 'view', tuple(shape), imap)


def broadcast_shapes(s1, s2):
    n = max(len(s1), len(s2))
    s1 = (1,) * (n - len(s1)) + tuple(s1)
    s2 = (1,) * (n - len(s2)) + tuple(s2)
    out = []
    for a, b in zip(s1, s2):
        if isinstance(a, int) and a == 1:
            out.append(b)
        elif isinstance(b, int) and b == 1:
            out.append(a)
        elif dims_eq(a, b):
            out.append(a)
        elif not isinstance(a, int) and ctx.entails(O.eq(a, 1)):
            out.append(b)
        elif not isinstance(b, int) and ctx.entails(O.eq(b, 1)):
            out.append(a)
        else:
            if isinstance(a, int) and isinstance(b, int):
                raise SymRaise('ValueError', 'shape mismatch')
            ctx.oblige('shape-match', O.eq(a, b))
            out.append(a)
    return tuple(out)


def bidx(shape, idx):
    """index tuple `idx` of a broadcast result -> index into an operand `shape`"""
    k = len(shape)
    sub = idx[len(idx) - k:] if k else ()
    return tuple(0 if (isinstance(m, int) and m == 1) else i
                 for m, i in zip(shape, sub))


def getitem(a, key):
    kind, shape, imap = index_view(a, key)
    if kind == 'mask':
        mask = shape
        return Masked(a.snap(), mask.snap(), a.shape, a.dtype)
    if kind == 'view':
        if not shape:
            return read_state(a.buf.state, imap(()))
        return Arr(a.buf, shape, imap)
    st = a.buf.state
    if not shape:
        return read_state(st, imap(()))
    return new_arr(shape, a.dtype, lambda *idx: read_state(st, imap(tuple(idx))))


def write(buf, eff):
    fr = ctx.frames[-1] if ctx.frames else None
    if fr is not None and buf.depth < len(ctx.frames):
        for f in ctx.frames[buf.depth:]:
            f.need_written(buf)
        eff = to_add(buf, eff)
    buf.state = Write(buf.state, eff)
    buf.written = True


def to_add(buf, eff):
    """`x = x + d` with d independent of loop-carried contents -> add d"""
    if eff.kind != 'set' or buf.dtype.kind == 'b':
        return eff
    cur = read_state(buf.state, eff.idx)
    if any(isinstance(c, Ext) for v in (cur, eff.val) for c in
           ([v.re, v.im] if isinstance(v, Cx) else [v])):
        return eff
    pre = tuple('rd!%d!' % f.uid for f in ctx.frames[buf.depth:])

    def carried(t):
        return is_z3(t) and any(n.startswith(pre) for n in P.deep_names(t))
    if not any(carried(c) for c in components(eff.val)):
        return eff
    d = simp(O.sub(eff.val, cur))
    if any(carried(c) for c in components(d)):
        return eff
    return Effect(eff.buf, eff.bounds, eff.guard, eff.idx, 'add', d)


def setitem(a, key, val):
    kind, shape, imap = index_view(a, key)
    if kind == 'mask':
        mask = shape
        ivs = [P.bindvar('m') for _ in a.shape]
        bounds = [(v, 0, n) for v, n in zip(ivs, a.shape)]
        g = mask.snap()(*bidx(mask.shape, tuple(ivs)))
        if isinstance(val, Masked):
            m2 = val.mask(*ivs)
            npc = len(ctx.pc)
            for v, lo, hi in bounds:
                ctx.pc.append(zb(b_and(O.le(lo, v), O.lt(v, hi))))
            ctx.oblige('mask-match', norm_bool(zb(g) == zb(m2)))
            del ctx.pc[npc:]
            v = val.fn(*ivs)
        elif isinstance(val, Arr) and val.ndim > 0:
            raise Unsupported('array assigned through a mask')
        else:
            v = val.at() if isinstance(val, Arr) else val
        write(a.buf, Effect(a.buf, bounds, g, a.imap(tuple(ivs)), 'set',
                            coerce(v, a.dtype)))
        return
    if isinstance(val, Masked):
        raise Unsupported('masked value assigned to a region')
    if isinstance(val, (list, tuple)):
        vals = list(val)
        val = new_arr((len(vals),), a.dtype, lambda i: pick(vals, i))
    ivs = []
    bounds = []
    idx = []
    for n in shape:
        if isinstance(n, int) and n == 1:
            idx.append(0)
            continue
        v = P.bindvar('w')
        bounds.append((v, 0, n))
        idx.append(v)
    npc = len(ctx.pc)
    for v, lo, hi in bounds:
        ctx.pc.append(zb(b_and(O.le(lo, v), O.lt(v, hi))))
    if isinstance(val, Arr):
        vs = val.shape
        while len(vs) > len(shape):
            if not (isinstance(vs[0], int) and vs[0] == 1):
                raise SymRaise('ValueError', 'could not broadcast')
            vs = vs[1:]
        if len(vs) != val.ndim:
            drop = val.ndim - len(vs)
            s0 = val.snap()
            snap = lambda *i: s0(*([0] * drop), *i)
        else:
            snap = val.snap()
        # shape obligations are about the whole arrays, not single elements
        saved = ctx.pc[npc:]
        del ctx.pc[npc:]
        for m, n in zip(reversed(vs), reversed(shape)):
            if isinstance(m, int) and m == 1:
                continue
            if isinstance(m, int) and isinstance(n, int):
                if m != n:
                    raise SymRaise('ValueError', 'could not broadcast')
            elif not dims_eq(m, n):
                ctx.oblige('shape-match', O.eq(m, n))
        npc = len(ctx.pc)
        ctx.pc.extend(saved)
        v = snap(*bidx(vs, tuple(idx)))
    else:
        v = val
    store_check(v, a.dtype)
    target = imap(tuple(idx))
    del ctx.pc[npc:]
    write(a.buf, Effect(a.buf, bounds, True, target, 'set', coerce(v, a.dtype)))


# ------------------------------------------------------------------ elementwise
def elementwise(fn, args, dtype, shape=None):
    """args: Arr or scalars; fn scalar function"""
    if any(isinstance(x, Masked) for x in args):
        ms = [x for x in args if isinstance(x, Masked)]
        m = ms[0]
        for o in ms[1:]:
            ivs = [P.bindvar('m') for _ in m.shape]
            npc = len(ctx.pc)
            for v, n in zip(ivs, m.shape):
                ctx.pc.append(zb(b_and(O.le(0, v), O.lt(v, n))))
            ctx.oblige('mask-match', norm_bool(zb(m.mask(*ivs)) == zb(o.mask(*ivs))))
            del ctx.pc[npc:]
        if any(isinstance(x, Arr) and x.ndim for x in args):
            raise Unsupported('mask arithmetic with arrays')

        def f(*idx):
            # elements outside the mask are irrelevant
            npc = len(ctx.pc)
            ctx.pc.append(zb(m.mask(*idx)))
            try:
                return fn(*[x.fn(*idx) if isinstance(x, Masked) else
                            (x.at() if isinstance(x, Arr) else x) for x in args])
            finally:
                del ctx.pc[npc:]
        return Masked(f, m.mask, m.shape, dtype)
    sh = ()
    for x in args:
        if isinstance(x, Arr):
            sh = broadcast_shapes(sh, x.shape)
    snaps = [(x.snap(), x.shape) if isinstance(x, Arr) else (None, x) for x in args]

    def f(*idx):
        vals = [s(*bidx(m, idx)) if s is not None else m for s, m in snaps]
        return fn(*vals)
    if not sh:
        return fn(*[s() if s is not None else m for s, m in snaps])
    return new_arr(sh, dtype, f)


def copy_arr(a, dtype=None):
    s = a.snap()
    return new_arr(a.shape, dtype or a.dtype, lambda *i: s(*i))


def range_pc(ivs, shape):
    return [zb(b_and(O.le(0, v), O.lt(v, n))) for v, n in zip(ivs, shape)
            if is_z3(v)]

"""Contracts assumed for numpy / scipy / stdlib functions used by /repo."""
import functools
import math
import os as _os
import pathlib
import z3
import numpy as _np
from .values import *
from .values import norm_bool
from . import ops as O
from . import prover as P
from . import arrays as A
from .arrays import Arr, Masked, as_dtype, new_arr, getitem
from .state import ctx
from . import interp as I_
from .interp import (Marker, SymSeq, SymRange, PyFunc, PyObj, isarr, is_scalar,
                     INTERP, StrSym)

UNROLL = 24


def _arr(x, dtype=None):
    return asarray(x, dtype)


# ------------------------------------------------------------------ creation
def asarray(x, dtype=None, **kw):
    dt = as_dtype(dtype) if dtype is not None else None
    if isinstance(x, Arr):
        if dt is None or dt is x.dtype:
            return x
        return astype(x, dt)
    if isinstance(x, SymSeq):
        t = P.bindvar('q')
        v = x.fn(t)
        d = dt or A.scalar_dtype(v)
        return new_arr((x.n,), d, x.fn)
    if isinstance(x, (range, SymRange)):
        if isinstance(x, range):
            x = list(x)
        else:
            from . import loops
            n = loops.range_len(x)
            return new_arr((n,), dt or A.I64, lambda i: O.add(x.a, O.mul(x.step, i)))
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return new_arr((0,), dt or A.F64, lambda i: 0.0)
        if any(isinstance(e, (list, tuple)) or (isinstance(e, Arr) and e.ndim)
               for e in x):
            return stack_list([asarray(e) for e in x], dt)
        x = [e.at() if isinstance(e, Arr) else e for e in x]
        if any(e is None or isinstance(e, (str, PyObj, PyFunc)) for e in x):
            raise Unsupported('object array')
        d = dt
        if d is None:
            d = A.scalar_dtype(x[0])
            for e in x[1:]:
                d = A.result_dtype(d, A.scalar_dtype(e))
        return new_arr((len(x),), d, lambda i: A.pick(x, i))
    if is_scalar(x):
        d = dt or A.scalar_dtype(x)
        if d.kind == 'i' and not is_intlike(x):
            A.store_check(x, d)
        return new_arr((), d, lambda: x)
    if x is None:
        raise Unsupported('np.asarray(None)')
    if isinstance(x, dict) or hasattr(x, '__iter__'):
        return asarray(list(x), dtype)
    raise Unsupported('asarray %r' % (x,))


def array(x, dtype=None, copy=True, **kw):
    if isinstance(x, Arr):
        return A.copy_arr(x, as_dtype(dtype) if dtype is not None else None)
    return asarray(x, dtype)


def _shape(shape):
    if isinstance(shape, Arr):
        raise Unsupported('array as a shape')
    if isinstance(shape, (list, tuple)):
        sh = tuple(shape)
    else:
        sh = (shape,)
    out = []
    for n in sh:
        if isinstance(n, Arr):
            n = n.at()
        n = unz3(z3.simplify(n)) if is_z3(n) else n
        if not is_intlike(n):
            raise SymRaise('TypeError', 'non-integer dimension')
        if isinstance(n, int):
            if n < 0:
                raise SymRaise('ValueError', 'negative dimensions')
        else:
            ctx.oblige('nonnegative-dimension', O.ge(n, 0))
        out.append(n)
    return tuple(out)


def full(shape, fill_value, dtype=None, **kw):
    if isinstance(fill_value, Arr):
        fv = fill_value
        if fv.ndim:
            s = fv.snap()
            sh = _shape(shape)
            A.broadcast_shapes(sh, fv.shape)
            return new_arr(sh, dtype or fv.dtype, lambda *i: s(*A.bidx(fv.shape, i)))
        fill_value = fv.at()
    d = as_dtype(dtype) if dtype is not None else A.scalar_dtype(fill_value)
    return new_arr(_shape(shape), d, lambda *i: fill_value)


def zeros(shape, dtype=None, **kw):
    d = as_dtype(dtype) if dtype is not None else A.F64
    z = {'f': 0.0, 'c': Cx(0.0, 0.0), 'i': 0, 'b': False}[d.kind]
    return new_arr(_shape(shape), d, lambda *i: z)


def ones(shape, dtype=None, **kw):
    d = as_dtype(dtype) if dtype is not None else A.F64
    z = {'f': 1.0, 'c': Cx(1.0, 0.0), 'i': 1, 'b': True}[d.kind]
    return new_arr(_shape(shape), d, lambda *i: z)


def empty(shape, dtype=None, **kw):
    d = as_dtype(dtype) if dtype is not None else A.F64
    return A.sym_array('empty!%d' % next(A._bufno), _shape(shape), d)


def zeros_like(x, dtype=None):
    return zeros(x.shape, dtype or x.dtype)


def ones_like(x, dtype=None):
    return ones(x.shape, dtype or x.dtype)


def empty_like(x, dtype=None):
    return empty(x.shape, dtype or x.dtype)


def arange(a, b=None, step=1, dtype=None):
    a, b, step = [v.at() if isinstance(v, Arr) and v.ndim == 0 else v
                  for v in (a, b, step)]
    if b is None:
        a, b = 0, a
    if all(is_intlike(v) for v in (a, b, step)):
        if isinstance(step, int):
            span = O.sub(b, a)
            n = span if step == 1 else O.floordiv(O.add(span, step - 1), step) \
                if step > 0 else O.floordiv(O.add(O.sub(a, b), -step - 1), -step)
        else:
            n = O.floordiv(O.add(O.sub(b, a), O.sub(step, 1)), step)
        n = unz3(z3.simplify(n)) if is_z3(n) else n
        if isinstance(n, int):
            n = max(n, 0)
        elif not ctx.entails(n >= 0):
            n = O.max2(n, 0)
        d = as_dtype(dtype) if dtype is not None else A.I64
    else:
        q = O.div(O.sub(b, a), step)
        n = O.ceil_(q)
        if isinstance(n, int):
            n = max(n, 0)
        elif not ctx.entails(n >= 0):
            n = O.max2(n, 0)
        d = as_dtype(dtype) if dtype is not None else A.F64
    return new_arr((n,), d, lambda i: O.add(a, O.mul(step, i)))


def linspace(a, b, n=50, endpoint=True, dtype=None, retstep=False):
    a, b = [v.at() if isinstance(v, Arr) and v.ndim == 0 else v for v in (a, b)]
    n = _shape((n,))[0]
    den = O.sub(n, 1) if endpoint else n
    if isinstance(den, int) and den == 0:
        step = 0.0
    else:
        if isinstance(den, int) or ctx.entails(den > 0):
            step = O.div(O.sub(b, a), den, 'raw')
        else:
            step = ite(O.gt(den, 0), O.div(O.sub(b, a), den, 'raw'), 0.0)
    d = as_dtype(dtype) if dtype is not None else A.F64
    r = new_arr((n,), d, lambda i: O.add(a, O.mul(i, step)))
    return (r, step) if retstep else r


def logspace(a, b, n=50, endpoint=True, base=10.0, dtype=None):
    l = linspace(a, b, n, endpoint).snap()
    return new_arr((n,), dtype or A.F64, lambda i: O.pow_(base, l(i)))


# ------------------------------------------------------------------ elementwise
def _ufunc(fn, outkind=None):
    def g(x, *a, **kw):
        out = kw.get('out')
        if kw.get('where') is not None:
            raise Unsupported('ufunc where=')
        if isinstance(x, (list, tuple)):
            x = asarray(x)
        if not isarr(x):
            r = fn(x)
            return r
        d = x.dtype
        if outkind == 'float':
            d = d if d.kind in 'fc' else A.F64
        elif outkind == 'abs':
            d = {'c': A.F32 if d.bits == 64 else A.F64}.get(d.kind, d)
        elif outkind == 'bool':
            d = A.BOOL
        r = A.elementwise(fn, [x], d)
        if out is not None:
            A.setitem(out, Ellipsis, r)
            return out
        return r
    return g


def _binuf(fn, kind=None):
    def g(a, b, out=None, **kw):
        if isinstance(a, (list, tuple)):
            a = asarray(a)
        if isinstance(b, (list, tuple)):
            b = asarray(b)
        if not isarr(a) and not isarr(b):
            return fn(a, b)
        if isarr(a) and isarr(b):
            d = A.result_dtype(a.dtype, b.dtype)
        else:
            d = A.promote_scalar(a.dtype, b) if isarr(a) else A.promote_scalar(b.dtype, a)
        if kind == 'bool':
            d = A.BOOL
        r = A.elementwise(fn, [a, b], d)
        if out is not None:
            A.setitem(out, Ellipsis, r)
            return out
        return r
    return g


def where(c, *ab):
    if not ab:
        return nonzero(c)
    a, b = ab
    a = asarray(a) if isinstance(a, (list, tuple)) else a
    b = asarray(b) if isinstance(b, (list, tuple)) else b
    if not isarr(c):
        if not isarr(a) and not isarr(b):
            return ite(O.truth(c), a, b)
    da = a.dtype if isarr(a) else None
    db = b.dtype if isarr(b) else None
    if da and db:
        d = A.result_dtype(da, db)
    elif da:
        d = A.promote_scalar(da, b)
    elif db:
        d = A.promote_scalar(db, a)
    else:
        d = A.result_dtype(A.scalar_dtype(a), A.scalar_dtype(b))
    return A.elementwise(lambda x, y, z: ite(O.truth(x), y, z), [c, a, b], d)


def nonzero(c):
    c = asarray(c)
    if c.dtype.kind != 'b':
        c = A.elementwise(O.truth, [c], A.BOOL)
    c = A.copy_arr(c)
    return tuple(A.NzIdx(c, i) for i in range(c.ndim))


def clip(x, a_min=None, a_max=None, min=None, max=None, **kw):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = x
    if lo is not None:
        r = _binuf(O.np_max2)(r, lo)
    if hi is not None:
        r = _binuf(O.np_min2)(r, hi)
    if isinstance(x, Arr) and r is x:
        return A.copy_arr(x)
    return r


def sign(x):
    def f(v):
        if isinstance(v, Cx):
            raise Unsupported('complex sign')
        return ite(O.gt(v, 0), 1.0, ite(O.lt(v, 0), -1.0, 0.0))
    return _ufunc(f)(x)


def np_round(x, decimals=0, **kw):
    if decimals:
        raise Unsupported('np.round decimals')
    return _ufunc(lambda v: O.to_float(I_.quiet_call(O.round_even, v)))(x)


# ------------------------------------------------------------------ reductions
def _axes(x, axis):
    if axis is None:
        return list(range(x.ndim))
    if isinstance(axis, (tuple, list)):
        return [a % x.ndim for a in axis]
    if not (-x.ndim <= axis < x.ndim):
        raise SymRaise('ValueError', 'axis out of bounds')
    return [axis % x.ndim]


def reduce_(x, axis, keepdims, elem, dtype):
    """elem(bounds, term_fn, lens): scalar result for one output index"""
    ax = _axes(x, axis)
    snap = x.snap()
    keep = [i for i in range(x.ndim) if i not in ax]
    sh = tuple((1 if i in ax else x.shape[i]) for i in range(x.ndim)) if keepdims \
        else tuple(x.shape[i] for i in keep)

    def f(*idx):
        full_idx = [None] * x.ndim
        if keepdims:
            for i in keep:
                full_idx[i] = idx[i]
        else:
            for p, i in enumerate(keep):
                full_idx[i] = idx[p]

        def term(vs):
            k = list(full_idx)
            for a, v in zip(ax, vs):
                k[a] = v
            return snap(*k)
        return elem([x.shape[a] for a in ax], term)
    if not sh:
        return f()
    return new_arr(sh, dtype, f)


def _small(lens):
    p = 1
    for n in lens:
        if not isinstance(n, int):
            return None
        p *= n
    if p > UNROLL:
        return None
    idxs = [()]
    for n in lens:
        idxs = [t + (i,) for t in idxs for i in range(n)]
    return idxs


def sum_elem(lens, term):
    idxs = _small(lens)
    if idxs is not None:
        r = 0.0
        for t in idxs:
            r = O.add(r, term(t))
        return r
    vs = [P.bindvar('s') for _ in lens]
    npc = len(ctx.pc)
    ctx.pc.extend(A.range_pc(vs, lens))
    v = term(vs)
    del ctx.pc[npc:]
    return A.make_sum([(w, 0, n) for w, n in zip(vs, lens)], True, v)


def np_sum(x, axis=None, keepdims=False, dtype=None, out=None, **kw):
    x = asarray(x)
    d = x.dtype if x.dtype.kind in 'fc' else A.I64

    def elem(lens, term):
        if x.dtype.kind == 'b':
            t0 = term
            term = lambda vs: ite(t0(vs), 1, 0)
        r = sum_elem(lens, term)
        if x.dtype.kind in 'ib' and is_z3(r) and r.is_real():
            r = z3.ToInt(r)
        return r
    return reduce_(x, axis, keepdims, elem, d)


def mean(x, axis=None, keepdims=False, dtype=None, **kw):
    x = asarray(x)

    def elem(lens, term):
        n = 1
        for m in lens:
            n = O.mul(n, m)
        return O.div(sum_elem(lens, term), n, 'np')
    return reduce_(x, axis, keepdims, elem, x.dtype if x.dtype.kind in 'fc' else A.F64)


def _ext_elem(kind):
    def elem(lens, term):
        idxs = _small(lens)
        f2 = O.np_min2 if kind.endswith('min') else O.np_max2
        lt = O.lt if kind.endswith('min') else O.gt
        if idxs is not None:
            if not idxs:
                raise SymRaise('ValueError', 'zero-size reduction')
            if kind in ('amin', 'amax'):
                r = term(idxs[0])
                for t in idxs[1:]:
                    r = f2(r, term(t))
                return r
            if len(lens) != 1:
                raise Unsupported('arg reduction over several axes')
            best, bi = term(idxs[0]), 0
            for t in idxs[1:]:
                v = term(t)
                c = lt(v, best)
                best, bi = ite(c, v, best), ite(c, t[0], bi)
            return bi
        if len(lens) > 1 and sum(not (isinstance(m, int) and m == 1) for m in lens) == 1:
            # only one axis is longer than one: the (flat) position is that along it
            a = [i for i, m in enumerate(lens) if not (isinstance(m, int) and m == 1)][0]
            t0, n_ = term, len(lens)
            term = lambda t: t0(tuple(t[0] if i == a else 0 for i in range(n_)))
            lens = (lens[a],)
        if len(lens) != 1:
            raise Unsupported('extremum over several axes')
        v = P.bindvar('m')
        npc = len(ctx.pc)
        ctx.pc.extend(A.range_pc([v], lens))
        t = term([v])
        del ctx.pc[npc:]
        if isinstance(t, (Cx, Ext)):
            raise Unsupported('extremum of non-real values')
        if kind in ('amin', 'amax') and is_intlike(t):
            return P.functional(kind, [(v, 0, lens[0])], [zi(t)], P.I)
        return P.functional(kind, [(v, 0, lens[0])], [zr(t)],
                            P.I if kind.startswith('arg') else P.R)
    return elem


def _reducer(kind):
    def g(x, axis=None, keepdims=False, out=None, **kw):
        x = asarray(x)
        lens = [x.shape[a] for a in _axes(x, axis)]
        for n in lens:
            if not isinstance(n, int):
                ctx.oblige('nonempty-reduction', O.gt(n, 0))
        d = A.I64 if kind.startswith('arg') else x.dtype
        if kind in ('amin', 'amax') and len(lens) == x.ndim and not keepdims \
                and (x.buf.ext or sum(not (isinstance(n, int) and n == 1) for n in lens) > 1) and _small(lens) is None:
            # over all axes: only that the extremum is attained at some cell
            idx = [P.fresh('at') for _ in lens]
            for i, n in zip(idx, lens):
                ctx.assume(z3.And(0 <= i, i < zi(n)))
            return x.at(*idx)
        return reduce_(x, axis, keepdims, _ext_elem(kind), d)
    return g


amin, amax = _reducer('amin'), _reducer('amax')
argmin, argmax = _reducer('argmin'), _reducer('argmax')


def _bool_elem(isall):
    def elem(lens, term):
        idxs = _small(lens)
        if idxs is not None:
            vals = [O.truth(term(t)) for t in idxs]
            return norm_bool(b_and(*vals) if isall else b_or(*vals))
        vs = [z3.Int('qb!%d' % next(A._bufno)) for _ in lens]
        npc = len(ctx.pc)
        ctx.pc.extend(A.range_pc(vs, lens))
        c = zb(O.truth(term(vs)))
        del ctx.pc[npc:]
        rng = z3.And(*[z3.And(0 <= v, v < zi(n)) for v, n in zip(vs, lens)])
        c = z3.simplify(c)
        if z3.is_true(c) and isall:
            return True
        if z3.is_false(c) and not isall:
            return False
        if isall:
            return z3.ForAll(vs, z3.Implies(rng, c))
        return z3.Exists(vs, z3.And(rng, c))
    return elem


def np_all(x, axis=None, keepdims=False, **kw):
    if not isarr(x) and is_scalar(x):
        return O.truth(x)
    return reduce_(asarray(x), axis, keepdims, _bool_elem(True), A.BOOL)


def np_any(x, axis=None, keepdims=False, **kw):
    if not isarr(x) and is_scalar(x):
        return O.truth(x)
    return reduce_(asarray(x), axis, keepdims, _bool_elem(False), A.BOOL)


def prod(x, axis=None, **kw):
    if isinstance(x, (list, tuple)):
        r = 1
        for v in x:
            r = O.mul(r, v)
        return r
    x = asarray(x)
    idxs = _small(list(x.shape))
    if idxs is None:
        raise Unsupported('np.prod')
    r = 1
    for t in idxs:
        r = O.mul(r, x.at(*t))
    return r


# ------------------------------------------------------------------ shape
def expand_dims(x, axis):
    x = asarray(x)
    n = x.ndim + 1
    axis = axis % n
    return getitem(x, tuple([slice(None)] * axis + [None]))


def squeeze(x, axis=None):
    if not isarr(x):
        return x
    if axis is None:
        drop = []
        for i, n in enumerate(x.shape):
            if isinstance(n, int):
                if n == 1:
                    drop.append(i)
            elif not ctx.entails(O.ne(n, 1)):
                if ctx.branch(O.eq(n, 1)):
                    drop.append(i)
    else:
        axs = axis if isinstance(axis, tuple) else (axis,)
        drop = [a % x.ndim for a in axs]
        for i in drop:
            if isinstance(x.shape[i], int) and x.shape[i] != 1:
                raise SymRaise('ValueError', 'cannot squeeze')
            if not isinstance(x.shape[i], int):
                ctx.oblige('squeeze-unit-axis', O.eq(x.shape[i], 1))
    if not drop:
        return x
    keep = [i for i in range(x.ndim) if i not in drop]
    im = x.imap

    def imap(idx):
        full_ = [0] * x.ndim
        for p, i in enumerate(keep):
            full_[i] = idx[p]
        return im(tuple(full_))
    return Arr(x.buf, tuple(x.shape[i] for i in keep), imap)


def transpose(x, axes=None):
    perm = list(axes) if axes is not None else list(range(x.ndim))[::-1]
    im = x.imap

    def imap(idx):
        full_ = [None] * x.ndim
        for p, i in enumerate(perm):
            full_[i] = idx[p]
        return im(tuple(full_))
    return Arr(x.buf, tuple(x.shape[i] for i in perm), imap)


def reshape(x, *shape, **kw):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    x = asarray(x)
    shape = list(shape)
    core = [(i, n) for i, n in enumerate(x.shape) if not (isinstance(n, int) and n == 1)]
    if any(isinstance(n, int) and n == -1 for n in shape):
        j = next(i for i, n in enumerate(shape) if isinstance(n, int) and n == -1)
        rest = [n for i, n in enumerate(shape) if i != j and not (isinstance(n, int)
                                                                  and n == 1)]
        left = [n for _, n in core]
        for r in rest:
            k = next((q for q, n in enumerate(left) if A.dims_eq(n, r)), None)
            if k is None:
                tot = 1
                for n in x.shape:
                    tot = O.mul(tot, n)
                den = 1
                for r2 in rest:
                    den = O.mul(den, r2)
                if isinstance(tot, int) and isinstance(den, int) and den and \
                        tot % den == 0:
                    left = [tot // den]
                    break
                raise Unsupported('reshape')
            left.pop(k)
        v = 1
        for n in left:
            v = O.mul(v, n)
        shape[j] = v
    tgt = [(i, n) for i, n in enumerate(shape) if not (isinstance(n, int) and n == 1)]
    im = x.imap
    if len(tgt) == len(core) and all(A.dims_eq(a[1], b[1]) for a, b in zip(core, tgt)):
        def imap(idx):
            full_ = [0] * x.ndim
            for (i, _), (j, _) in zip(core, tgt):
                full_[i] = idx[j]
            return im(tuple(full_))
        return Arr(x.buf, tuple(shape), imap)
    # general: through the flat index
    tot_s, tot_x = 1, 1
    for n in shape:
        tot_s = O.mul(tot_s, n)
    for n in x.shape:
        tot_x = O.mul(tot_x, n)
    if isinstance(tot_s, int) and isinstance(tot_x, int):
        if tot_s != tot_x:
            raise SymRaise('ValueError', 'cannot reshape')
    else:
        ctx.oblige('reshape-size', O.eq(tot_s, tot_x))

    def imap2(idx):
        flat = 0
        for i, n in zip(idx, shape):
            flat = O.add(O.mul(flat, n), i)
        out = []
        for n in reversed(x.shape[1:]):
            out.append(I_.quiet_call(O.mod, flat, n))
            flat = I_.quiet_call(O.floordiv, flat, n)
        out.append(flat)
        return im(tuple(reversed(out)))
    return Arr(x.buf, tuple(shape), imap2)


def ravel(x, *a, **kw):
    if x.ndim == 1:
        return x
    return reshape(x, -1)


def flip(x, axis=None):
    ax = _axes(x, axis)
    return getitem(x, tuple(slice(None, None, -1) if i in ax else slice(None)
                            for i in range(x.ndim)))


def astype(x, dtype, copy=True, **kw):
    dt = as_dtype(dtype)
    if is_scalar(x):
        return A.coerce(x, dt)
    if dt is x.dtype and not copy:
        return x
    if dt.kind == 'i' and x.dtype.kind == 'f':
        ivs = [P.bindvar('a') for _ in x.shape]
        npc = len(ctx.pc)
        ctx.pc.extend(A.range_pc(ivs, x.shape))
        A.store_check(x.at(*ivs), dt)
        del ctx.pc[npc:]
    return A.copy_arr(x, dt)


def concatenate(xs, axis=0, **kw):
    xs = [asarray(x) for x in I_.INTERP.unpack(xs)] if not isinstance(xs, Arr) else \
        [getitem(xs, i) for i in range(xs.shape[0])]
    nd = xs[0].ndim
    axis = axis % nd
    d = xs[0].dtype
    for x in xs[1:]:
        d = A.result_dtype(d, x.dtype)
        if x.ndim != nd:
            raise SymRaise('ValueError', 'concatenate dims')
        for i in range(nd):
            if i != axis:
                if isinstance(x.shape[i], int) and isinstance(xs[0].shape[i], int):
                    if x.shape[i] != xs[0].shape[i]:
                        raise SymRaise('ValueError', 'concatenate shapes')
                elif not A.dims_eq(x.shape[i], xs[0].shape[i]):
                    ctx.oblige('shape-match', O.eq(x.shape[i], xs[0].shape[i]))
    offs, tot = [], 0
    for x in xs:
        offs.append(tot)
        tot = O.add(tot, x.shape[axis])
    tot = unz3(z3.simplify(tot)) if is_z3(tot) else tot
    snaps = [x.snap() for x in xs]

    def f(*idx):
        i = idx[axis]

        def val(k):
            j = list(idx)
            j[axis] = O.sub(i, offs[k])
            if is_z3(j[axis]):
                j[axis] = unz3(z3.simplify(j[axis]))
            return snaps[k](*j)
        r = None
        for k in range(len(xs) - 1, -1, -1):
            if isinstance(xs[k].shape[axis], int) and xs[k].shape[axis] == 0:
                continue
            if r is None:
                c = True
                r = ('lazy', k)
                continue
            c = norm_bool(O.lt(i, O.add(offs[k], xs[k].shape[axis])))
            if not isinstance(c, bool):
                c = ctx.simplify_cond(c)
            if c is True:
                r = ('lazy', k)
            elif c is False:
                continue
            else:
                rv = val(r[1]) if isinstance(r, tuple) and r[0] == 'lazy' else r[1]
                r = ('val', ite(c, val(k), rv))
        if r[0] == 'lazy':
            return val(r[1])
        return r[1]
    sh = list(xs[0].shape)
    sh[axis] = tot
    return new_arr(tuple(sh), d, f)


def stack_list(xs, dt=None):
    """list of equal-shape arrays -> stacked along a new axis 0"""
    d = dt
    if d is None:
        d = xs[0].dtype
        for x in xs[1:]:
            d = A.result_dtype(d, x.dtype)
    for x in xs[1:]:
        if x.ndim != xs[0].ndim or not all(A.dims_eq(a, b) for a, b in zip(
                x.shape, xs[0].shape)):
            raise Unsupported('ragged array')
    snaps = [x.snap() for x in xs]

    def f(i, *rest):
        i = unz3(z3.simplify(i)) if is_z3(i) else i
        if isinstance(i, int):
            return snaps[i](*rest)
        r = snaps[-1](*rest)
        for k in range(len(xs) - 2, -1, -1):
            r = ite(O.eq(i, k), snaps[k](*rest), r)
        return r
    return new_arr((len(xs),) + tuple(xs[0].shape), d, f)


def hstack(xs):
    xs = [asarray(x) for x in I_.INTERP.unpack(xs)]
    xs = [x if x.ndim else getitem(x, None) for x in xs]
    return concatenate(xs, axis=0 if xs[0].ndim == 1 else 1)


def vstack(xs):
    if isinstance(xs, Arr):
        if xs.ndim >= 2:
            # vstack over the leading axis of an nd array
            if xs.ndim == 2:
                return A.copy_arr(xs)
            n0 = xs.shape[0]
            if isinstance(n0, int):
                return concatenate([getitem(xs, i) for i in range(n0)], axis=0)
            raise Unsupported('vstack')
        xs = [getitem(xs, None)]
    l = I_.INTERP.unpack(xs)
    if len(l) == 1 and isinstance(l[0], SymSeq):
        raise Unsupported('vstack of symbolic list')
    xs = []
    for x in l:
        x = asarray(x)
        while x.ndim < 2:
            x = getitem(x, None) if x.ndim == 1 else getitem(getitem(x, None), None)
        xs.append(x)
    if len(xs) == 1:
        return A.copy_arr(xs[0])
    return concatenate(xs, axis=0)


def pad(x, pad_width, mode='constant', **kw):
    x = asarray(x)
    if mode == 'constant' and kw.get('constant_values', 0) not in (0, 0.0):
        raise Unsupported('pad constant value')
    pw = pad_width
    if not isinstance(pw, (list, tuple)):
        pw = [(pw, pw)] * x.ndim
    elif not isinstance(pw[0], (list, tuple)):
        if len(pw) == 2 and not isinstance(pw[0], (list, tuple)):
            pw = [tuple(pw)] * x.ndim
    if len(pw) == 1 and x.ndim > 1:
        pw = [tuple(pw[0])] * x.ndim
    if len(pw) != x.ndim:
        raise SymRaise('ValueError', 'pad_width')
    snap = x.snap()
    shape = []
    for n, (a, b) in zip(x.shape, pw):
        for q in (a, b):
            if isinstance(q, int):
                if q < 0:
                    raise SymRaise('ValueError', 'negative pad')
            elif not is_intlike(q):
                raise SymRaise('TypeError', 'pad_width must be integral')
            else:
                ctx.oblige('nonnegative-pad', O.ge(q, 0))
        t = O.add(O.add(n, a), b)
        shape.append(unz3(z3.simplify(t)) if is_z3(t) else t)

    def f(*idx):
        out = []
        inside = True
        for i, n, (a, b) in zip(idx, x.shape, pw):
            if isinstance(a, int) and a == 0 and isinstance(b, int) and b == 0:
                out.append(i)
                continue
            j = O.sub(i, a)
            inn = b_and(O.le(0, j), O.lt(j, n))
            inn = ctx.simplify_cond(inn)
            if mode == 'constant':
                inside = b_and(inside, inn)
                out.append(j)
                continue
            if inn is True:
                out.append(j)
                continue
            out.append(pad_index(mode, j, n, a, b))
        if mode == 'constant':
            if inside is False:
                return {'c': Cx(0.0, 0.0), 'i': 0, 'b': False}.get(x.dtype.kind, 0.0)
            return ite(inside, snap(*out), 0.0 if x.dtype.kind in 'fc' else 0)
        return snap(*out)
    return new_arr(tuple(shape), x.dtype, f)


def pad_index(mode, j, n, a, b):
    """source index for position j in [-a, n+b) outside or inside [0, n)"""
    if mode == 'edge':
        return O.max2(O.min2(j, O.sub(n, 1)), 0)
    if mode == 'wrap':
        if ctx.entails(b_and(O.le(a, n), O.le(b, n))):
            return ite(O.lt(j, 0), O.add(j, n), ite(O.ge(j, n), O.sub(j, n), j))
        return I_.quiet_call(O.mod, j, n)
    if mode == 'reflect':
        last = O.sub(n, 1)
        if ctx.entails(b_and(O.le(a, last), O.le(b, last))):
            return ite(O.lt(j, 0), O.neg(j),
                       ite(O.ge(j, n), O.sub(O.mul(2, last), j), j))
        per = O.mul(2, last)
        m = ite(O.eq(n, 1), 0, I_.quiet_call(O.mod, j, O.max2(per, 1)))
        return ite(O.lt(m, n), m, O.sub(per, m))
    if mode == 'symmetric':
        if ctx.entails(b_and(O.le(a, n), O.le(b, n))):
            return ite(O.lt(j, 0), O.sub(O.neg(j), 1),
                       ite(O.ge(j, n), O.sub(O.sub(O.mul(2, n), 1), j), j))
        m = I_.quiet_call(O.mod, j, O.mul(2, n))
        return ite(O.lt(m, n), m, O.sub(O.sub(O.mul(2, n), 1), m))
    raise Unsupported('pad mode %s' % mode)


def diff(x, n=1, axis=-1, **kw):
    x = asarray(x)
    if n != 1:
        if not isinstance(n, int) or n < 0:
            raise Unsupported('diff n')
        for _ in range(n):
            x = diff(x, 1, axis, **kw)
        return x
    ax = axis % x.ndim
    k1 = tuple(slice(1, None) if i == ax else slice(None) for i in range(x.ndim))
    k0 = tuple(slice(None, -1) if i == ax else slice(None) for i in range(x.ndim))
    return A.elementwise(O.sub, [getitem(x, k1), getitem(x, k0)], x.dtype)


def outer_sub(a, b):
    a, b = asarray(a), asarray(b)
    sa, sb = a.snap(), b.snap()
    na = a.ndim
    return new_arr(a.shape + b.shape, A.result_dtype(a.dtype, b.dtype),
                   lambda *i: O.sub(sa(*i[:na]), sb(*i[na:])))


class _Sub:
    pyvc = True

    def __call__(self, a, b):
        return _binuf(O.sub)(a, b)
    outer = staticmethod(outer_sub)


class Finfo:
    def __init__(self, d):
        fi = _np.finfo(str(as_dtype(d)) if as_dtype(d).kind == 'f' else
                       {'complex64': 'float32', 'complex128': 'float64'}[str(as_dtype(d))])
        self.eps, self.tiny, self.max, self.min = map(float, (fi.eps, fi.tiny, fi.max,
                                                             fi.min))


def shares_memory(a, b):
    return a.buf is b.buf


may_share_memory = shares_memory


def atleast_1d(x, *a):
    x = asarray(x)
    return x if x.ndim else getitem(x, None)


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    ax = axis % y.ndim
    n = y.shape[ax]
    hi = tuple(slice(1, None) if i == ax else slice(None) for i in range(y.ndim))
    lo = tuple(slice(None, -1) if i == ax else slice(None) for i in range(y.ndim))
    s = A.elementwise(O.add, [getitem(y, hi), getitem(y, lo)], y.dtype)
    if x is not None:
        d = diff(asarray(x), axis=ax if asarray(x).ndim > 1 else 0)
        if d.ndim == 1 and y.ndim > 1:
            k = [None] * y.ndim
            k[ax] = slice(None)
            d = getitem(d, tuple(k))
    else:
        d = dx
    p = A.elementwise(lambda a, b: O.div(O.mul(a, b), 2), [s, d],
                      s.dtype if not isarr(d) else A.result_dtype(s.dtype, d.dtype))
    return np_sum(p, axis=ax)


def _line(x):
    """the values of a 1-D real array as a functional body"""
    v = P.bindvar('o')
    npc = len(ctx.pc)
    ctx.pc.extend(A.range_pc([v], x.shape))
    t = x.at(v)
    del ctx.pc[npc:]
    if isinstance(t, (Cx, Ext)):
        raise Unsupported('sorting non-real values')
    return v, zr(t)


def _argsort(x, axis=-1, **kw):
    """some permutation which sorts x (not which one, among equal values)"""
    x = asarray(x)
    if x.ndim != 1 or kw.get('order') is not None:
        raise Unsupported('argsort of %d-D' % x.ndim)
    v, body = _line(x)
    n = x.shape[0]
    return new_arr((n,), A.I64, lambda j: P.functional('argsort', [(v, 0, n)], [body], P.I, '', [zi(j)]))


def searchsorted(v_, a, side='left', sorter=None):
    v_ = asarray(v_)
    if v_.ndim != 1 or sorter is not None or side not in ('left', 'right'):
        raise Unsupported('searchsorted')
    n = v_.shape[0]
    p, q = P.fresh('srt'), P.fresh('srt')
    npc = len(ctx.pc)
    ctx.pc.extend([0 <= p, p <= q, q < zi(n)])
    ctx.oblige('sorted', O.le(v_.at(p), v_.at(q)))
    del ctx.pc[npc:]
    v, body = _line(v_)

    def one(t):
        if isinstance(t, (Cx, Ext)):
            raise Unsupported('searchsorted of non-real values')
        return P.functional('searchsorted.' + side, [(v, 0, n)], [body], P.I, '', [zr(t)])
    if not isarr(a):
        return one(a)
    return A.elementwise(one, [a], A.I64)


def allclose(a, b, **kw):
    raise Unsupported('np.allclose')


# ------------------------------------------------------------------ FFT
def _fft(kind):
    """scipy.fft along an axis: an opaque function of the whole line"""
    def g(x, n=None, axis=-1, norm=None, workers=None, **kw):
        x = asarray(x)
        if norm is not None or kw:
            raise Unsupported('fft options')
        ax = axis % x.ndim
        N = x.shape[ax]
        ctx_pos = O.gt(N, 0)
        if not isinstance(N, int):
            ctx.oblige('nonempty-fft', ctx_pos)
        if kind in ('fft', 'ifft'):
            if n is not None and not A.dims_eq(n, N):
                raise Unsupported('fft length')
            nout, dt = N, (A.C64 if x.dtype.bits in (64,) and x.dtype.kind == 'c' or
                           x.dtype.bits == 32 else A.C128)
        elif kind == 'rfft':
            if x.dtype.kind == 'c':
                raise SymRaise('TypeError', 'rfft of complex')
            nout = O.add(O.floordiv(N, 2), 1)
            dt = A.C64 if x.dtype.bits == 32 else A.C128
        else:
            nout = n if n is not None else O.mul(2, O.sub(N, 1))
            dt = A.F32 if (x.dtype.kind == 'c' and x.dtype.bits == 64) or \
                x.dtype.bits == 32 else A.F64
        snap = x.snap()

        def f(*idx):
            v = P.bindvar('f')
            k = list(idx)
            m = idx[ax]
            k[ax] = v
            npc = len(ctx.pc)
            ctx.pc.extend(A.range_pc([v], [N]))
            t = lift_cx(snap(*k))
            del ctx.pc[npc:]
            if needs_ext(t.re, t.im):
                raise Unsupported('fft of non-finite values')
            body = [zr(t.re), zr(t.im)]
            inv = _inverse(kind, v, m, N, nout, body)
            if inv is not None:
                return inv
            ex = [zi(m), zi(nout)]
            if kind == 'irfft':
                return P.functional('irfft.re', [(v, 0, N)], body, P.R, '', ex)
            return Cx(P.functional(kind + '.re', [(v, 0, N)], body, P.R, '', ex),
                      P.functional(kind + '.im', [(v, 0, N)], body, P.R, '', ex))
        sh = list(x.shape)
        sh[ax] = nout
        return new_arr(tuple(sh), dt, f)
    return g


def _inverse(kind, v, m, N, nout, body):
    """ifft(fft(y)) == y and irfft(rfft(y), n=len(y)) == y"""
    if kind not in ('ifft', 'irfft'):
        return None
    fw = {'ifft': 'fft', 'irfft': 'rfft'}[kind]
    b = z3.simplify(body[0])
    if not (z3.is_app(b) and b.decl().name() in P.RECORDS):
        return None
    if P.RECORDS[b.decl().name()].kind != fw + '.re':
        return None
    k2, tag, vs, los, his, bd, ex = P.instantiate(b)
    if not z3.simplify(ex[0]).eq(z3.simplify(v)):
        return None
    b1 = z3.simplify(body[1])
    if not (z3.is_app(b1) and b1.decl().name() in P.RECORDS):
        return None
    k3, tag3, vs3, los3, his3, bd3, ex3 = P.instantiate(b1)
    back = lambda t: z3.simplify(z3.substitute(z3ify(t), (vs3[0], vs[0])))
    if k3 != fw + '.im' or not all(
            back(x).eq(z3.simplify(z3ify(y))) for x, y in
            zip(los3 + his3 + bd3 + ex3, los + his + bd + ex)):
        return None
    if not ctx.entails(his[0] == zi(nout)):
        return None
    sub = (vs[0], zi(m))
    re_, im_ = z3.substitute(bd[0], sub), z3.substitute(bd[1], sub)
    return re_ if kind == 'irfft' else Cx(re_, im_)


def fftshift(x, axes=None):
    x = asarray(x)
    for ax in _axes(x, axes):
        n = x.shape[ax]
        h = O.floordiv(n, 2)
        x = roll(x, h, ax)
    return x


def ifftshift(x, axes=None):
    x = asarray(x)
    for ax in _axes(x, axes):
        n = x.shape[ax]
        h = O.floordiv(n, 2)
        x = roll(x, O.neg(h), ax)
    return x


def roll(x, shift, axis=None):
    x = asarray(x)
    if axis is None:
        if x.ndim != 1:
            raise Unsupported('roll without axis')
        axis = 0
    axis = axis % x.ndim
    n = x.shape[axis]
    snap = x.snap()

    def f(*idx):
        k = list(idx)
        i = O.sub(k[axis], shift)
        if ctx.entails(b_and(O.le(O.neg(n), shift), O.le(shift, n))):
            i = ite(ctx.simplify_cond(O.lt(i, 0)), O.add(i, n),
                    ite(ctx.simplify_cond(O.ge(i, n)), O.sub(i, n), i))
        else:
            i = I_.quiet_call(O.mod, i, n)
        k[axis] = i
        return snap(*k)
    return new_arr(x.shape, x.dtype, f)


# ------------------------------------------------------------------ attributes
def arr_attr(o, name):
    if is_scalar(o):
        if name == 'real':
            return O.re(o)
        if name == 'imag':
            return O.im(o)
        if name == 'shape':
            return ()
        if name == 'ndim':
            return 0
        if name == 'size':
            return 1
        if name == 'dtype':
            return A.scalar_dtype(o)
        if name == 'item':
            return lambda: o
        if name in ('conjugate', 'conj'):
            return lambda: O.conj(o)
        if name == 'is_integer':
            return lambda: (float(o).is_integer() if isinstance(o, (int, float)) else
                            True if o.is_int() else z3.IsInt(o))
        if name in ARR_METHODS and not isinstance(o, (int, bool, float)):
            a = asarray(o)
            return functools.partial(ARR_METHODS[name], a)
        if name in ('squeeze', 'copy', 'astype', 'ravel', 'max', 'min', 'sum', 'mean',
                    'any', 'all', 'reshape'):
            return functools.partial(ARR_METHODS[name], asarray(o))
        raise SymRaise('AttributeError', name)
    if isinstance(o, Masked):
        if name == 'dtype':
            return o.dtype
        if name in ('real', 'imag'):
            f = O.re if name == 'real' else O.im
            return A.elementwise(f, [o], o.dtype)
        raise Unsupported('attribute %s of a masked selection' % name)
    if name == 'shape':
        return o.shape
    if name == 'ndim':
        return o.ndim
    if name == 'dtype':
        return o.dtype
    if name == 'size':
        r = 1
        for n in o.shape:
            r = O.mul(r, n)
        return unz3(z3.simplify(r)) if is_z3(r) else r
    if name == 'T':
        return transpose(o)
    if name in ('real', 'imag'):
        f = O.re if name == 'real' else O.im
        d = {'complex64': A.F32, 'complex128': A.F64}.get(o.dtype.name, o.dtype)
        if o.dtype.kind != 'c' and name == 'real':
            return o
        return A.elementwise(f, [o], d) if o.ndim else new_arr((), d, lambda: f(o.at()))
    if name == 'itemsize':
        return o.dtype.bits // 8
    if name in ARR_METHODS:
        return functools.partial(ARR_METHODS[name], o)
    if name in ('is_cuda', 'device', '__array_interface__'):
        raise SymRaise('AttributeError', name)
    raise Unsupported('array attribute %s' % name) if name in (
        'flat', 'strides', 'flags', 'base', 'data', 'tobytes', 'tolist', 'view',
        'repeat', 'cumsum', 'std', 'var', 'nonzero', 'dot') else \
        SymRaise('AttributeError', name)


def _fill(o, v):
    A.setitem(o, Ellipsis, v)


def _tolist(o):
    if o.ndim == 1 and isinstance(o.shape[0], int):
        return [o.at(i) for i in range(o.shape[0])]
    raise Unsupported('tolist')


def _item(o, *a):
    if a:
        return getitem(o, tuple(a))
    return o.at(*([0] * o.ndim))


ARR_METHODS = {
    'copy': lambda o, *a: A.copy_arr(o), 'astype': astype, 'squeeze': squeeze,
    'reshape': reshape, 'ravel': ravel, 'flatten': lambda o: A.copy_arr(ravel(o)),
    'sum': np_sum, 'mean': mean, 'max': amax, 'min': amin, 'argmax': argmax,
    'argmin': argmin, 'all': np_all, 'any': np_any, 'conj': lambda o: _ufunc(O.conj)(o),
    'conjugate': lambda o: _ufunc(O.conj)(o), 'clip': clip, 'fill': _fill,
    'item': _item, 'tolist': _tolist, 'transpose': lambda o, *a: transpose(
        o, a[0] if len(a) == 1 else (a or None)),
    'argsort': _argsort, '__len__': lambda o: o.shape[0], 'prod': prod,
    'round': np_round, 'searchsorted': searchsorted,
}


# ------------------------------------------------------------------ modules
NDARRAY = Marker('ndarray')
DTYPE = Marker('dtype_cls')
NUMBER = Marker('number')
INTEGER = Marker('np_integer')
FLOATING = Marker('np_floating')


def isinstance_marker(x, m):
    if m is NDARRAY:
        return isinstance(x, Arr)
    if m is DTYPE:
        return isinstance(x, A.DType)
    if m is NUMBER:
        return is_scalar(x)
    if m is INTEGER:
        return False
    if m is FLOATING:
        return is_z3(x) and isinstance(x, z3.ArithRef) and x.is_real()
    if m.name == 'never':
        return False
    raise Unsupported('isinstance with %s' % m.name)


class Model:
    pyvc = True

    def __init__(self, name, **kw):
        self.__dict__.update(kw)
        self._name = name

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported('%s.%s' % (self.__dict__.get('_name'), a))


def _ctor(self, x=0):
    if isarr(x):
        return astype(x, self)
    return A.coerce(x, self)


A.DType.__call__ = _ctor
A.DType.type = property(lambda self: self)
A.DType.itemsize = property(lambda self: self.bits // 8)


class DTypeCls(Marker):
    def __call__(self, d):
        return as_dtype(d)


DTYPE = DTypeCls('dtype_cls')


def _isinf(x):
    return _ufunc(O.isinf, 'bool')(x)


def _isnan(x):
    return _ufunc(O.isnan, 'bool')(x)


def np_abs(x, out=None):
    r = I_._b_abs(asarray(x) if isinstance(x, (list, tuple)) else x)
    if out is not None:
        A.setitem(out, Ellipsis, r)
        return out
    return r


def angle_of(c):
    c = lift_cx(c)
    if needs_ext(c.re, c.im):
        raise Unsupported('angle of non-finite value')
    return P.uf('atan2', P.R, P.R, P.R)(zr(c.im), zr(c.re))


def angle(x):
    if not isarr(x):
        return angle_of(x)
    return A.elementwise(angle_of, [x], A.F32 if x.dtype.bits == 64 and
                         x.dtype.kind == 'c' else A.F64)


def unwrap_line(get, n, j):
    """np.unwrap of the line `get` of n samples, at j (opaque, depends on the line)"""
    v = P.bindvar('u')
    return P.functional('unwrap', [(v, 0, n)], [zr(get(v))], P.R, '', [zi(j)])


def unwrap(x, axis=-1, **kw):
    x = asarray(x)
    if kw:
        raise Unsupported('unwrap options')
    ax = axis % x.ndim
    snap = x.snap()

    def f(*idx):
        def get(v):
            k = list(idx)
            k[ax] = v
            return snap(*k)
        return unwrap_line(get, x.shape[ax], idx[ax])
    return new_arr(x.shape, x.dtype, f)


def np_floor(x):
    return _ufunc(lambda v: O.to_float(I_.quiet_call(O.floor_, v)))(x)


def np_ceil(x):
    return _ufunc(lambda v: O.to_float(I_.quiet_call(O.ceil_, v)))(x)


def np_power(a, b):
    return _binuf(O.pow_)(a, b)


NP = Model(
    'numpy', ndarray=NDARRAY, dtype=DTYPE, pi=math.pi, inf=math.inf, nan=math.nan,
    e=math.e, newaxis=None, float64=A.F64, float32=A.F32, complex64=A.C64,
    complex128=A.C128, int64=A.I64, int32=A.I32, bool_=A.BOOL, number=NUMBER,
    integer=INTEGER, floating=FLOATING, generic=Marker('never'),
    asarray=asarray, array=array, zeros=zeros, ones=ones, full=full, empty=empty,
    zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like, arange=arange,
    linspace=linspace, logspace=logspace, ascontiguousarray=asarray,
    abs=lambda x, **k: np_abs(x, **k), absolute=lambda x, **k: np_abs(x, **k),
    fabs=lambda x, **k: np_abs(x, **k),
    log=_ufunc(lambda v: O.log_('log', v), 'float'),
    log2=_ufunc(lambda v: O.log_('log2', v), 'float'),
    log10=_ufunc(lambda v: O.log_('log10', v), 'float'),
    exp=_ufunc(O.exp_, 'float'), sqrt=_ufunc(O.sqrt, 'float'),
    cos=_ufunc(lambda v: O.trig('cos', v), 'float'),
    sin=_ufunc(lambda v: O.trig('sin', v), 'float'),
    sign=sign, isinf=_isinf, isnan=_isnan,
    isfinite=_ufunc(isfinite_flag, 'bool'),
    real=lambda x: arr_attr(x, 'real'), imag=lambda x: arr_attr(x, 'imag'),
    conj=_ufunc(O.conj), conjugate=_ufunc(O.conj),
    argsort=_argsort, searchsorted=searchsorted,
    argmin=argmin, argmax=argmax, amin=amin, amax=amax, min=amin, max=amax,
    sum=np_sum, mean=mean, all=np_all, any=np_any, prod=prod, clip=clip, pad=pad,
    hstack=hstack, vstack=vstack, concatenate=concatenate, where=where, diff=diff,
    power=np_power, flipud=lambda x: flip(x, 0), fliplr=lambda x: flip(x, 1),
    flip=flip, reshape=reshape, squeeze=squeeze, expand_dims=expand_dims,
    copy=lambda x: A.copy_arr(x), ravel=ravel, transpose=transpose, roll=roll,
    subtract=_Sub(), multiply=_binuf(O.mul), add=_binuf(O.add),
    divide=_binuf(lambda a, b: O.div(a, b, 'np')),
    maximum=_binuf(O.np_max2), minimum=_binuf(O.np_min2),
    logical_and=_binuf(lambda a, b: b_and(O.truth(a), O.truth(b)), 'bool'),
    logical_or=_binuf(lambda a, b: b_or(O.truth(a), O.truth(b)), 'bool'),
    logical_not=_ufunc(lambda a: b_not(O.truth(a)), 'bool'),
    finfo=Finfo, shares_memory=shares_memory, may_share_memory=may_share_memory,
    round=np_round, floor=np_floor, ceil=np_ceil, atleast_1d=atleast_1d,
    square=_ufunc(lambda v: O.mul(v, v)), angle=lambda x: angle(x), unwrap=lambda x, axis=-1, **k: unwrap(x, axis, **k), trapezoid=trapezoid,
    trapz=trapezoid, allclose=allclose,
    errstate=lambda **k: Marker('nullcontext'),
    stack=lambda xs, axis=0: stack_list([asarray(x) for x in xs]),
    isscalar=lambda x: is_scalar(x) or isinstance(x, str),
    ndim=lambda x: x.ndim if isarr(x) else 0,
    shape=lambda x: x.shape if isarr(x) else (),
    size=lambda x: arr_attr(x, 'size') if isarr(x) else 1,
)


class EnvironDict:
    pyvc = True

    def get(self, k, d=None):
        return INTERP.environ.get(k, d)

    def __getitem__(self, k):
        return INTERP.environ[k]

    def __setitem__(self, k, v):
        INTERP.environ[k] = v

    def __contains__(self, k):
        return k in INTERP.environ

    def __iter__(self):
        return iter(INTERP.environ)


OS = Model('os', environ=EnvironDict(), path=_os.path, sep=_os.sep)


class _Numba:
    pass


def _jit(*a, **kw):
    if a and isinstance(a[0], PyFunc):
        a[0].jit = True
        return a[0]
    return Marker('jit', parallel=bool(kw.get('parallel')))


def _reduce(f, it, *init):
    l = INTERP.unpack(it)
    if init:
        r = init[0]
    else:
        r, l = l[0], l[1:]
    for x in l:
        r = INTERP.call(f, [r, x], {})
    return r


def _wraps(f):
    return Marker('identity')


def _partial(f, *a, **k):
    def g(*b, **kk):
        k2 = dict(k)
        k2.update(kk)
        return INTERP.call(f, list(a) + list(b), k2)
    g.pyvc = True
    return g


def _noop(*a, **k):
    return None


def _deepcopy(x, memo=None):
    if isinstance(x, Arr):
        return A.copy_arr(x)
    if isinstance(x, dict):
        return {k: _deepcopy(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_deepcopy(v) for v in x]
    if isinstance(x, tuple):
        return tuple(_deepcopy(v) for v in x)
    if isinstance(x, PyObj):
        o = PyObj(x.cls)
        o.attrs = {k: _deepcopy(v) for k, v in x.attrs.items()}
        return o
    return x


def _copy(x):
    if isinstance(x, Arr):
        return A.copy_arr(x)
    if isinstance(x, (dict, list)):
        return x.copy()
    if isinstance(x, PyObj):
        o = PyObj(x.cls)
        o.attrs = dict(x.attrs)
        return o
    return x


class _Inspect:
    pass


def _signature(f):
    raise Unsupported('inspect.signature')


EXTERNAL = {
    'numpy': NP,
    'os': OS,
    'numba': Model('numba', jit=_jit, njit=_jit, prange=I_._b_prange),
    'functools': Model('functools', reduce=_reduce, wraps=_wraps, partial=_partial,
                       lru_cache=lambda *a, **k: Marker('identity')),
    'logging': Model('logging', basicConfig=_noop, warning=_noop, warn=_noop,
                     info=_noop, debug=_noop, error=_noop),
    'warnings': Model('warnings', warn=_noop, filterwarnings=_noop),
    'multiprocessing': Model('multiprocessing', cpu_count=lambda: 8),
    'pathlib': Model('pathlib', Path=pathlib.Path),
    'textwrap': Model('textwrap', wrap=lambda s, *a, **k: [s]),
    'math': Model('math', pi=math.pi, sqrt=O.sqrt, log2=lambda x: O.log_('log2', x),
                  log=lambda x: O.log_('log', x), floor=O.floor_, ceil=O.ceil_,
                  gamma=lambda x: math.gamma(x), inf=math.inf, exp=O.exp_,
                  factorial=math.factorial),
    'copy': Model('copy', deepcopy=_deepcopy, copy=_copy),
    'gc': Model('gc', collect=lambda *a: 0),
    'types': Model('types', FunctionType=I_._types.FunctionType),
    'inspect': Model('inspect', signature=_signature,
                     stack=lambda *a: (_ for _ in ()).throw(Unsupported('inspect.stack'))),
    'scipy': Model('scipy'),
    'scipy.fft': Model('scipy.fft', fft=_fft('fft'), ifft=_fft('ifft'),
                       rfft=_fft('rfft'), irfft=_fft('irfft'), fftshift=fftshift,
                       ifftshift=ifftshift),
    'scipy.integrate': Model('scipy.integrate', trapezoid=trapezoid, trapz=trapezoid),
    'scipy.special': Model('scipy.special'),
    'scipy.signal': Model('scipy.signal'),
    'matplotlib': Model('matplotlib'),
    'matplotlib.pyplot': Model('pyplot'),
    'string': Model('string'),
    're': Model('re'),
    'time': Model('time'),
    'sys': Model('sys', modules={}),
}


class LateModel(Model):
    """module whose attributes fail only when called"""
    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        nm = '%s.%s' % (self.__dict__.get('_name'), a)

        def late(*x, **k):
            raise Unsupported(nm)
        late.pyvc = True
        return late


def _special(name):
    def f(a):
        if is_conc(a):
            return getattr(math, {'gamma': 'gamma', 'gammaln': 'lgamma'}[name])(a)
        if isinstance(a, (Ext, Cx)):
            raise Unsupported(name)
        return P.uf(name, P.R, P.R)(zr(a))
    return _ufunc(f, 'float')


for _n in ('scipy.special', 'scipy.signal', 'matplotlib.pyplot', 'matplotlib',
           'string', 're', 'scipy'):
    EXTERNAL[_n] = LateModel(_n)
EXTERNAL['scipy.special'] = LateModel('scipy.special', gamma=_special('gamma'), gammaln=_special('gammaln'))


def external(name):
    if name in EXTERNAL:
        return EXTERNAL[name]
    raise SymRaise('ImportError', name)

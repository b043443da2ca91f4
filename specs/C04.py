"""C04  Reassignment keeps each column's sum and moves nothing in time.

Every cell of Tx is the sum over the rows binned to it (as in C03).  The sum over the rows of Tx
is then the sum over the rows of Wx: the lemma `columns` below, proved by induction on the two
ranges for an arbitrary binning, is instantiated at that binning."""
from .common import *
from .C03 import KFP, setup, fused_setup, ALGOS
from . import sq
from .sq import SQ


# ------------------------------------------------------------------ the lemma
@vc('lemma: columns', 'lemma:sums', cases=[dict(step=s) for s in ('empty', 'empty+1', 'row', 'row+1', 'next')])
def columns_lemma(step):
    """sum over r < R of sum over i < m of [l(i) and b(i) = r] v(i)  =  sum over i < m of
    [l(i) and 0 <= b(i) < R] v(i),
    by induction on m, whose step is an induction on R.  Finite sums are given by their
    recursion: no terms give 0, one more term is added."""
    I, Rs = P.I, P.R
    b, v, l = P.uf('b', I, I), P.uf('v', I, Rs), P.uf('l', I, z3.BoolSort())
    S = P.uf('S', I, I, Rs)          # S(r, m): sum over i < m of [l(i) and b(i) = r] v(i)
    T = P.uf('T', I, I, Rs)          # T(R, m): sum over r < R of S(r, m)
    U = P.uf('U', I, I, Rs)          # U(R, m): sum over i < m of [l(i) and 0 <= b(i) < R] v(i)
    R, m = integer('R', 0), integer('m', 0)
    at = lambda i, r: z3.If(z3.And(l(i), b(i) == r), v(i), z3.RealVal(0))
    below = lambda i, r: z3.If(z3.And(l(i), 0 <= b(i), b(i) < r), v(i), z3.RealVal(0))
    for r in (z3.IntVal(0), R, R + 1):
        assume(S(r, 0) == 0)
        assume(S(r, m + 1) == S(r, m) + at(m, r))
        assume(U(r, 0) == 0)
        assume(U(r, m + 1) == U(r, m) + below(m, r))
    for k in (z3.IntVal(0), m, m + 1):
        assume(T(0, k) == 0)
        assume(T(R + 1, k) == T(R, k) + S(R, k))
    if step == 'empty':
        ensure('no rows, no bins', T(0, 0) == U(0, 0))
    elif step == 'empty+1':
        assume(T(R, 0) == 0)
        ensure('no rows, one bin more', T(R + 1, 0) == U(R + 1, 0))
    elif step == 'row':
        ensure('one row more, no bins', T(0, m + 1) == T(0, m) + below(m, z3.IntVal(0)))
    elif step == 'row+1':
        assume(T(R, m + 1) == T(R, m) + below(m, R))
        ensure('one row more, one bin more', T(R + 1, m + 1) == T(R + 1, m) + below(m, R + 1))
    else:
        assume(T(R, m) == U(R, m))
        assume(T(R, m + 1) == T(R, m) + below(m, R))
        ensure('one row more', T(R, m + 1) == U(R, m + 1))


def zero_of(v):
    return Cx(0.0, 0.0) if isinstance(v, Cx) else 0.0


def row_sum(M, f):
    i = P.bindvar('i')
    ctx_n = len(ctx.pc)
    ctx.pc.append(z3.And(i >= 0, i < zi(M)))
    v = f(i)
    del ctx.pc[ctx_n:]
    return A.make_sum([(i, 0, M)], True, v)


def cell(bins, live, val, M, r):
    """sum over the live rows binned to r"""
    def f(i):
        v = val(i)
        return ite(both(live(i), eq(bins(i), r)), v, zero_of(v))
    return row_sum(M, f)


def conserved(T, base, bins, live, val, M, n):
    """T(r) is base(r) + the sum of bin r, for every r; so the column of T has the sum of the
    column of base plus that of the live values"""
    r, i = index('r', n), index('i', M)
    rb = P.bindvar('r')
    at_rb = cell(bins, live, val, M, rb)
    inner = lambda r: A.map_components(lambda t: z3.substitute(t, (rb, zi(r))) if is_z3(t) else t, at_rb)
    want = (lambda r: O.add(base(r), inner(r))) if base is not None else inner
    ensure('each cell is the sum of its bin', eq(T(r), want(r)))
    b = bins(i)
    ensure('every bin is in range', implies(live(i), both(O.ge(b, 0), O.lt(b, n))))
    # the two facts hold for arbitrary r and i: equal terms have equal sums
    kept, wanted = row_sum(n, T), row_sum(n, want)
    assume(eq(kept, wanted))

    def in_range(i):
        v, b = val(i), bins(i)
        return ite(both(live(i), both(O.ge(b, 0), O.lt(b, n))), v, zero_of(v))

    def all_live(i):
        v = val(i)
        return ite(live(i), v, zero_of(v))
    right, mass = row_sum(M, in_range), row_sum(M, all_live)
    assume(eq(right, mass))
    # the lemma
    left = row_sum(n, inner)
    assume(eq(left, right))
    before = row_sum(n, base) if base is not None else 0.0
    if base is not None:
        ensure('sums add up', eq(wanted, O.add(before, left)))
    ensure('the column keeps its sum', eq(kept, O.add(before, mass)))


def binned(g, flip, w, j):
    def f(i):
        k = g.bin(w(i, j))
        return O.sub(g.omax, k) if flip else k
    return f


def column(T, g, flip, M, w, live, V, c, j, base=None):
    conserved(lambda r: T(r, j), (lambda r: base(r, j)) if base is not None else None,
              binned(g, flip, w, j), lambda i: live(i, j), lambda i: O.mul(V(i, j), c(i)), M, g.n)


# ------------------------------------------------------------------ kernels
@vc('indexed_sum_onfly', ALGOS + 'indexed_sum_onfly', cases=KFP, timeout=40000)
def onfly(kind, flip, par):
    M, N, nf, g, Wx, out, const, c = setup(kind)
    w = arr('w', (M, N), 'float64', ext='p')
    every('w', lambda x: x >= 0)
    w0, W0, out0 = w.snap(), Wx.snap(), out.snap()
    T = call(ALGOS + 'indexed_sum_onfly', Wx, w, g.vals, const, kind != 'lin', flip, out, par)
    live = lambda i, j: no(O.isinf(w0(i, j)))
    column(T.at, g, flip, M, w0, live, W0, c, index('j', N), out0)


@vc('ssqueeze_fast', ALGOS + 'ssqueeze_fast',
    cases=[dict(k, stft=False) for k in KFP] +
    [dict(kind='lin', flip=f, par=p, stft=True) for f in (False, True) for p in (False, True)],
    timeout=40000)
def fused(kind, flip, par, stft):
    M, N, nf, g, Wx, dWx, out, const, c, gam = fused_setup(kind, False)
    Sfs = arr('Sfs', (M,)) if stft else None
    f0 = Sfs.snap() if stft else None
    W0, D0, out0 = Wx.snap(), dWx.snap(), out.snap()
    T = call(ALGOS + 'ssqueeze_fast', Wx, dWx, g.vals, const, kind != 'lin', flip, gam, out, Sfs, par)
    w = sq.freq_of(W0, D0, f0)
    live = lambda i, j: O.ge(mag(W0(i, j)), gam)
    column(T.at, g, flip, M, w, live, W0, c, index('j', N), out0)


@vc('indexed_sum', ALGOS + 'indexed_sum', cases=[dict(par=p) for p in (False, True)], timeout=40000)
def rows(par):
    M, N = dim('M'), dim('N')
    a, k = arr('a', (M, N), 'complex128'), arr('k', (M, N), 'int32')
    every('k', lambda x: z3.And(x >= 0, x < M))
    a0, k0 = a.snap(), k.snap()
    T = call(ALGOS + 'indexed_sum', a, k, par)
    j = index('j', N)
    ensure('shape', shape_is(T, M, N))
    conserved(lambda r: T.at(r, j), None, lambda i: k0(i, j), lambda i: True, lambda i: a0(i, j), M, M)


# ------------------------------------------------------------------ nothing moves in time
@vc('locality', ALGOS + 'ssqueeze_fast', ALGOS + 'indexed_sum_onfly',
    cases=[dict(k, fused=f) for k in KFP for f in (False, True)] +
    [dict(kind='lin', flip=f, par=p, fused='stft') for f in (False, True) for p in (False, True)],
    timeout=40000)
def locality(kind, flip, par, fused):
    """two inputs that agree in column j give results that agree in column j"""
    if fused:
        M, N, nf, g, Wx, dWx, out, const, c, gam = fused_setup(kind, False)
    else:
        M, N, nf, g, Wx, out, const, c = setup(kind)
        w = arr('w', (M, N), 'float64', ext='p')
        every('w', lambda x: x >= 0)
    Sfs = arr('Sfs', (M,)) if fused == 'stft' else None
    j = index('j', N)

    def other(a, name):
        b = arr(name, a.shape, a.dtype.name, **({} if a.dtype.kind == 'c' or name != 'w2' else {'ext': 'p'}))
        s, t = a.snap(), b.snap()
        return A.new_arr(a.shape, a.dtype, lambda i, k: ite(eq(k, j), s(i, k), t(i, k)))
    if fused:
        every('cabs', lambda x: x != gam)
    else:
        every('w2', lambda x: x >= 0)
    Wx2, out2 = other(Wx, 'Wx2'), other(out, 'Tx2')
    log = kind != 'lin'
    if fused:
        dWx2 = other(dWx, 'dWx2')
        run = lambda W, D, o: call(ALGOS + 'ssqueeze_fast', W, D, g.vals, const, log, flip, gam, o, Sfs, par)
        T, T2 = run(Wx, dWx, out), run(Wx2, dWx2, out2)
    else:
        w2 = other(w, 'w2')
        run = lambda W, w, o: call(ALGOS + 'indexed_sum_onfly', W, w, g.vals, const, log, flip, o, par)
        T, T2 = run(Wx, w, out), run(Wx2, w2, out2)
    r = index('r', nf)
    ensure('same column', eq(T.at(r, j), T2.at(r, j)))


# ------------------------------------------------------------------ whole functions


@vc('ssqueeze', SQ + 'ssqueeze', cases=sq.SOME, timeout=40000)
def ssqueeze(**case):
    s = sq.ssq_case(**case)
    sq_ = case.get('squeezing', 'sum')
    T = sq.run(s)[0]
    b = index('b', s.B) if s.batch else None
    conserve(s, T, b, case.get('fused', False), sq_, None)


def conserve(s, T, b, fused, squeezing, f):
    p = () if b is None else (b,)
    V0, E0, w0 = s.V, s.E, s.w0
    V, E = (lambda i, j: V0(*p, i, j)), (lambda i, j: E0(*p, i, j))
    if s.Sfs is not None:
        f = s.Sfs.snap()
    if fused:
        w = sq.freq_of(V, E, f)
        live = lambda i, j: O.ge(mag(V(i, j)), s.gam)
    else:
        w = lambda i, j: w0(*p, i, j)
        live = lambda i, j: no(O.isinf(w(i, j)))
    U = {'sum': V, 'abs': lambda i, j: mag(V(i, j)),
         'lebesgue': lambda i, j: Cx(O.div(1.0, s.M, 'raw'), 0.0),
         'function': lambda i, j: O.mul(V(i, j), V(i, j))}[squeezing]
    column(lambda r, j: T.at(*p, r, j), s.g, s.flip, s.M, w, live, U, s.c, index('j', s.N))


@vc('ssq_cwt', 'ssqueezepy._ssq_cwt:ssq_cwt', cases=[dict(flip=p, batch=b, squeezing=q)
    for p, b in ((True, False), (False, False), (True, True)) for q in ('sum', 'abs', 'lebesgue', 'function')] +
    [dict(get_w=True), dict(kind='piecewise', freqs='given'), dict(kind='lin', cwt_kind='lin')], timeout=40000)
def ssq_cwt(**case):
    s = sq.whole_cwt(**case)
    conserve(s, s.res[0], index('b', s.B) if s.batch else None, True, case.get('squeezing', 'sum'), None)


@vc('ssq_stft', 'ssqueezepy._ssq_stft:ssq_stft', cases=[dict(flip=p, batch=b, squeezing=q)
    for p, b in ((True, False), (False, False), (False, True)) for q in ('sum', 'abs', 'lebesgue', 'function')] +
    [dict(get_w=True), dict(freqs='given')], timeout=40000)
def ssq_stft(**case):
    s = sq.whole_stft(**case)
    conserve(s, s.res[0], index('b', s.B) if s.batch else None, True, case.get('squeezing', 'sum'), None)

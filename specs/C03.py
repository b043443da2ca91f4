"""C03  Synchrosqueezing bin: nearest, clamped, in bounds; every coefficient goes to it."""
from .common import *

KINDS = ['lin', 'log', 'piecewise']
ALGOS = 'ssqueezepy.algos:'
KFP = [dict(kind=k, flip=f, par=p) for k in KINDS for f in (False, True)
       for p in (False, True)]


def use_grid(g):
    """assumed contract of logscale_transition_idx on these grids (C18 decides it)"""
    def stub(v):
        return None if g.kind == 'log' else O.add(g.t, 1)
    INTERP.stubs['ssqueezepy.utils.cwt_utils:logscale_transition_idx'] = stub
    for k in [0, 1] + ([g.t, O.add(g.t, 1)] if g.kind == 'piecewise' else []):
        g.facts(k)


def setup(kind, scalar=False):
    M, N = dim('M', 2), dim('N')
    nf = dim('nf', 3 if kind == 'piecewise' else 2)
    g = Grid(kind, nf)
    use_grid(g)
    Wx = arr('Wx', (M, N), 'complex128')
    out = arr('Tx', (nf, N), 'complex128')
    if scalar:
        c = real('c')
        return M, N, nf, g, Wx, out, c, lambda i: c
    const = arr('const', (M,), 'float64')
    return M, N, nf, g, Wx, out, const, const.at


def total(g, flip, M, r, w, live, W, c, j):
    """sum over rows i of the coefficients whose frequency is binned to row r"""
    i = P.bindvar('i')
    k = g.bin(w(i, j))
    k = O.sub(g.omax, k) if flip else k
    t = ite(both(live(i, j), eq(k, r)), O.mul(W(i, j), c(i)), Cx(0.0, 0.0))
    return A.make_sum([(i, 0, M)], True, t)


@vc('indexed_sum_onfly', ALGOS + 'indexed_sum_onfly', ALGOS + '_process_ssq_params',
    ALGOS + '_indexed_sum_lin', ALGOS + '_indexed_sum_log',
    ALGOS + '_indexed_sum_log_piecewise', ALGOS + '_indexed_sum_lin_par',
    ALGOS + '_indexed_sum_log_par', ALGOS + '_indexed_sum_log_piecewise_par',
    cases=[dict(k, scalar=False) for k in KFP] +
          [dict(kind='log', flip=False, par=False, scalar=True)], timeout=40000)
def indexed_sum_onfly(kind, flip, par, scalar):
    M, N, nf, g, Wx, out, const, c = setup(kind, scalar)
    w = arr('w', (M, N), 'float64', ext='p')
    every('w', lambda x: x >= 0)
    w0, W0, out0 = w.snap(), Wx.snap(), out.snap()
    T = call(ALGOS + 'indexed_sum_onfly', Wx, w, g.vals, const, kind != 'lin', flip,
             out, par)
    r, j = index('r', nf), index('j', N)
    live = lambda i, j: no(O.isinf(w0(i, j)))
    tot = total(g, flip, M, r, w0, live, W0, c, j)
    ensure('shape', shape_is(T, nf, N))
    ensure('Tx is the sum over its bin', eq(T.at(r, j), O.add(out0(r, j), tot)))


def fused_setup(kind, scalar):
    M, N, nf, g, Wx, out, const, c = setup(kind, scalar)
    dWx = arr('dWx', (M, N), 'complex128')
    gam = real('gamma')
    assume(gam > 0)
    # coefficients of modulus exactly gamma are excluded (either choice is allowed)
    every('cabs', lambda x: x != gam)
    return M, N, nf, g, Wx, dWx, out, const, c, gam


@vc('ssqueeze_fast', ALGOS + 'ssqueeze_fast', ALGOS + '_ssq_cwt_lin', ALGOS + '_ssq_cwt_log',
    ALGOS + '_ssq_cwt_log_piecewise', ALGOS + '_ssq_cwt_lin_par', ALGOS + '_ssq_cwt_log_par',
    ALGOS + '_ssq_cwt_log_piecewise_par', cases=[dict(k, scalar=False) for k in KFP] +
    [dict(kind='log', flip=False, par=False, scalar=True)], timeout=40000)
def ssqueeze_fast(kind, flip, par, scalar):
    M, N, nf, g, Wx, dWx, out, const, c, gam = fused_setup(kind, scalar)
    W0, D0, out0 = Wx.snap(), dWx.snap(), out.snap()
    T = call(ALGOS + 'ssqueeze_fast', Wx, dWx, g.vals, const, kind != 'lin', flip, gam,
             out, None, par)
    r, j = index('r', nf), index('j', N)
    w = lambda i, j: O.fabs(omega(W0(i, j), D0(i, j)))
    live = lambda i, j: O.ge(mag(W0(i, j)), gam)
    tot = total(g, flip, M, r, w, live, W0, c, j)
    ensure('shape', shape_is(T, nf, N))
    ensure('Tx is the sum over its bin', eq(T.at(r, j), O.add(out0(r, j), tot)))


@vc('ssqueeze_fast_stft', ALGOS + 'ssqueeze_fast', ALGOS + '_ssq_stft', ALGOS + '_ssq_stft_par',
    cases=[dict(flip=f, par=p, scalar=s) for f in (False, True) for p in (False, True)
           for s in (False, True)], timeout=40000)
def ssqueeze_fast_stft(flip, par, scalar):
    M, N, nf, g, Wx, dWx, out, const, c, gam = fused_setup('lin', scalar)
    Sfs = arr('Sfs', (M,), 'float64')
    f0 = Sfs.snap()
    W0, D0, out0 = Wx.snap(), dWx.snap(), out.snap()
    T = call(ALGOS + 'ssqueeze_fast', Wx, dWx, g.vals, const, False, flip, gam, out, Sfs, par)
    r, j = index('r', nf), index('j', N)
    w = lambda i, j: O.fabs(O.sub(f0(i), omega(W0(i, j), D0(i, j))))
    live = lambda i, j: O.ge(mag(W0(i, j)), gam)
    tot = total(g, flip, M, r, w, live, W0, c, j)
    ensure('Tx is the sum over its bin', eq(T.at(r, j), O.add(out0(r, j), tot)))


@vc('_ssq_stft_par', ALGOS + '_ssq_stft_par', cases=[dict(flip=f) for f in (False, True)],
    timeout=40000)
def ssq_stft_par(flip):
    M, N, nf, g, Wx, dWx, out, const, c, gam = fused_setup('lin', False)
    Sfs = arr('Sfs', (M,), 'float64')
    f0 = Sfs.snap()
    W0, D0, out0 = Wx.snap(), dWx.snap(), out.snap()
    call(ALGOS + '_ssq_stft_par', Wx, dWx, Sfs, out, const, gam, g.v0, g.d0, g.omax, flip)
    r, j = index('r', nf), index('j', N)
    w = lambda i, j: O.fabs(O.sub(f0(i), omega(W0(i, j), D0(i, j))))
    live = lambda i, j: O.ge(mag(W0(i, j)), gam)
    tot = total(g, flip, M, r, w, live, W0, c, j)
    ensure('Tx is the sum over its bin', eq(out.at(r, j), O.add(out0(r, j), tot)))


@vc('nearest bin', 'lemma:grid', cases=[dict(kind=k) for k in KINDS], timeout=20000)
def nearest(kind):
    """the closed form used above is a nearest bin of the grid and is in range"""
    n = dim('n', 3 if kind == 'piecewise' else 2)
    g = Grid(kind, n)
    x = real('x')                       # position of the frequency on the bin axis
    w = x
    if kind != 'lin':
        w = real('w')
        assume(w > 0)
        assume(P.log2(w) == x)
    bin_ = g.bin(w)
    ensure('in range', both(O.ge(bin_, 0), O.lt(bin_, n)))
    q = real('q')                       # x = v0 + d0 q
    m = index('m', n)
    absr = lambda t: z3.If(t >= 0, t, -t)
    if kind != 'piecewise':
        step_nearest(g.v0, g.d0, x, q, g.omax, m, bin_)
        return
    t, q1 = g.t, real('q1')
    k0 = clamp_round(q, g.omax)
    r1 = P.rnd(q1) + t
    k1 = z3.If(r1 > zi(g.omax), zi(g.omax), r1)
    assume(g.d0 * q == x - g.v0)
    assume(g.d1 * q1 == x - g.v1)
    ensure('quotients', both((x - g.v0) / g.d0 == q, (x - g.v1) / g.d1 == q1))
    ensure('closed form', eq(bin_, z3.If(x > g.v1, k1, k0)))
    # order of the positions (products of the step by integer distances)
    def prod(d, a, name):
        """sign of d * a from the sign of a (d > 0)"""
        ensure(name, both(z3.Implies(a >= 0, d * a >= 0), z3.Implies(a <= 0, d * a <= 0)))
    if P_branch(x > g.v1):
        prod(g.d1, q1, 'beyond the transition')
        ensure('q1 positive', q1 > 0)
        ensure('bin in the second piece', both(k1 >= zi(t), k1 <= zi(g.omax)))
        if P_branch(m >= zi(t)):
            nearest_int(q1, k1 - t, m - t, P.rnd(q1), g.omax - t)
            scaled(g.d1, q1, zr(k1 - t), zr(m - t), x - g.v1)
        else:
            nearest_int(q1, k1 - t, z3.IntVal(0), P.rnd(q1), g.omax - t)
            scaled(g.d1, q1, zr(k1 - t), z3.RealVal(0), x - g.v1)
            prod(g.d0, zr(t) - zr(m), 'earlier bins lie below')
            ensure('earlier bin is farther',
                   (x - g.v1) <= (x - g.v0 - g.d0 * zr(m)))
    else:
        prod(g.d0, zr(t) - q, 'before the transition')
        ensure('q at most t', q <= zr(t))
        ensure('bin in the first piece', both(k0 >= 0, k0 <= zi(t)))
        if P_branch(m <= zi(t)):
            nearest_int(q, k0, m, P.rnd(q), g.omax)
            scaled(g.d0, q, zr(k0), zr(m), x - g.v0)
        else:
            nearest_int(q, k0, t, P.rnd(q), g.omax)
            scaled(g.d0, q, zr(k0), zr(t), x - g.v0)
            prod(g.d1, zr(m) - zr(t), 'later bins lie above')
            ensure('later bin is farther', (g.v1 - x) <= (g.v1 + g.d1 * (zr(m) - zr(t)) - x))


def nearest_int(q, k, m, r, top):
    """|q - k| <= |q - m| where k is r = rnd(q) clamped to [.., top]"""
    absr = lambda t: z3.If(t >= 0, t, -t)
    P_branch(r < 0) or P_branch(r > zi(top))
    P_branch(zi(m) < k) or P_branch(zi(m) > k)
    ensure('nearest integer', absr(q - zr(k)) <= absr(q - zr(m)))


def P_branch(c):
    return ctx.branch(c)


def scaled(d, q, k, m, y):
    """y = d q and |q - k| <= |q - m|  ==>  |y - d k| <= |y - d m|"""
    absr = lambda t: z3.If(t >= 0, t, -t)
    ensure('distances scale', both(absr(y - d * k) == d * absr(q - k),
                                   absr(y - d * m) == d * absr(q - m)))
    a, b = absr(q - k), absr(q - m)
    ensure('no bin is nearer', d * a <= d * b)


def step_nearest(v, d, x, q, omax, m, bin_):
    absr = lambda t: z3.If(t >= 0, t, -t)
    k = clamp_round(q, omax)
    assume(d * q == x - v)
    ensure('quotient', (x - v) / d == q)
    ensure('closed form', eq(bin_, k))
    nearest_int(q, k, m, P.rnd(q), omax)
    scaled(d, q, zr(k), zr(m), x - v)

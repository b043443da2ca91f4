"""C06  Parallel and sequential execution give the same result, for every schedule.

The prange loops carry no-race obligations (no two iterations write the same cell,
none reads a cell another writes), so the schedule cannot matter; the two variants
are then run on the same arbitrary input and must agree."""
from .common import *
from .C03 import use_grid, KINDS, fused_setup, setup as ssq_setup

A_ = 'ssqueezepy.algos:'


def twin(make, run, read, dims):
    """same inputs, sequential then parallel"""
    a = run(make('a'), False)
    b = run(make('b'), True)
    idx = [index('i%d' % k, n) for k, n in enumerate(dims)]
    ensure('same shape', shape_is(b, *a.shape))
    ensure('parallel result = sequential result', eq(a.at(*idx), b.at(*idx)))


@vc('phase', A_ + '_phase_cwt', A_ + '_phase_cwt_par', A_ + '_phase_stft',
    A_ + '_phase_stft_par', cases=[dict(stft=s) for s in (False, True)])
def phase(stft):
    M, N = dim('M'), dim('N')
    W, D, g = arr('Wx', (M, N), 'complex128'), arr('dWx', (M, N), 'complex128'), real('gamma')
    assume(g > 0)
    S_ = [arr('Sfs', (M,))] if stft else []
    f = A_ + ('phase_stft_cpu' if stft else 'phase_cwt_cpu')
    twin(lambda t: None, lambda _, p: call(f, W, D, *S_, g, parallel=p), None, (M, N))


@vc('indexed_sum', A_ + 'indexed_sum', A_ + '_indexed_sum', A_ + '_indexed_sum_par')
def indexed_sum():
    M, N = dim('M'), dim('N')
    a, k = arr('a', (M, N), 'complex128'), arr('k', (M, N), 'int32')
    every('k', lambda x: z3.And(x >= 0, x < M))
    twin(lambda t: None, lambda _, p: call(A_ + 'indexed_sum', a, k, p), None, (M, N))


@vc('indexed_sum_onfly', A_ + 'indexed_sum_onfly',
    cases=[dict(kind=k, flip=f) for k in KINDS for f in (False, True)], timeout=40000)
def indexed_sum_onfly(kind, flip):
    M, N, nf, g, Wx, out, const, c = ssq_setup(kind)
    w = arr('w', (M, N), 'float64', ext='p')
    every('w', lambda x: x >= 0)
    twin(lambda t: arr('Tx', (nf, N), 'complex128'),
         lambda o, p: call(A_ + 'indexed_sum_onfly', Wx, w, g.vals, const, kind != 'lin',
                           flip, o, p), None, (nf, N))


@vc('ssqueeze_fast', A_ + 'ssqueeze_fast',
    cases=[dict(kind=k, flip=f) for k in KINDS for f in (False, True)], timeout=40000)
def ssqueeze_fast(kind, flip):
    M, N, nf, g, Wx, dWx, out, const, c, gam = fused_setup(kind, False)
    twin(lambda t: arr('Tx', (nf, N), 'complex128'),
         lambda o, p: call(A_ + 'ssqueeze_fast', Wx, dWx, g.vals, const, kind != 'lin',
                           flip, gam, o, None, p), None, (nf, N))


@vc('ssqueeze_fast_stft', A_ + '_ssq_stft', A_ + '_ssq_stft_par',
    cases=[dict(flip=f) for f in (False, True)], timeout=40000)
def ssqueeze_fast_stft(flip):
    M, N, nf, g, Wx, dWx, out, const, c, gam = fused_setup('lin', False)
    Sfs = arr('Sfs', (M,))

    def run(o, p):
        call(A_ + ('_ssq_stft_par' if p else '_ssq_stft'), Wx, dWx, Sfs, o, const, gam,
             g.v0, g.d0, g.omax, flip)
        return o
    twin(lambda t: arr('Tx', (nf, N), 'complex128'), run, None, (nf, N))


@vc('find_closest', A_ + 'find_closest', cases=[dict(kind=k) for k in KINDS], timeout=40000)
def find_closest(kind):
    M, N, nf = dim('M'), dim('N'), dim('nf', 3)
    g = Grid(kind, nf)
    use_grid(g)
    a = arr('a', (M, N), 'float64', ext='p')
    every('a', lambda x: x >= 0)
    twin(lambda t: None, lambda _, p: call(A_ + 'find_closest', a, g.vals, kind != 'lin',
                                           p, False), None, (M, N))


@vc('replace_under_abs', A_ + '_replace_under_abs', A_ + '_replace_under_abs_par')
def replace_under_abs():
    M, N = dim('M'), dim('N')
    ref, val, rep = arr('ref', (M, N), 'complex128'), real('val'), real('rep')

    def run(x, p):
        call(A_ + 'replace_under_abs', x, ref, val, rep, p)
        return x
    twin(lambda t: arr('x', (M, N)), run, None, (M, N))


@vc('zero_denormals', A_ + '_zero_denormals', A_ + '_zero_denormals_par')
def zero_denormals():
    N = dim('N')

    def run(x, p):
        call(A_ + 'zero_denormals', x, p)
        return x
    twin(lambda t: arr('x', (N,)), run, None, (N,))


U_ = 'ssqueezepy.utils.stft_utils:'


@vc('buffer', U_ + 'buffer', U_ + '_buffer', U_ + '_buffer_par',
    cases=[dict(mod=m, batch=b) for m in (False, True) for b in (False,)])
def buffer(mod, batch):
    L, hop, n = dim('L'), dim('hop'), dim('n')
    assume(n <= L)
    assume(hop <= n)
    x = arr('x', (L,))
    a = call(U_ + 'buffer', x, n, n - hop, mod, False)
    b = call(U_ + 'buffer', x, n, n - hop, mod, True)
    i, j = index('i', a.shape[0]), index('j', a.shape[1])
    ensure('same shape', shape_is(b, *a.shape))
    ensure('parallel result = sequential result', eq(a.at(i, j), b.at(i, j)))

"""C05  Fused reassignment equals phase transform followed by reassignment."""
from .common import *
from .C03 import use_grid, KINDS

ALGOS = 'ssqueezepy.algos:'


@vc('fused = two steps', ALGOS + 'ssqueeze_fast', ALGOS + 'indexed_sum_onfly',
    ALGOS + 'phase_cwt_cpu', ALGOS + 'phase_stft_cpu', cases=[
        dict(kind=k, flip=f, par=p, stft=False) for k in KINDS for f in (False, True) for p in (False, True)] +
    [dict(kind='lin', flip=f, par=p, stft=True) for f in (False, True) for p in (False, True)],
    timeout=40000)
def fused(kind, flip, par, stft):
    M, N = dim('M', 2), dim('N')
    nf = dim('nf', 3 if kind == 'piecewise' else 2)
    g = Grid(kind, nf)
    use_grid(g)
    W, D = arr('Wx', (M, N), 'complex128'), arr('dWx', (M, N), 'complex128')
    A_, B_ = arr('A', (nf, N), 'complex128'), arr('B', (nf, N), 'complex128')
    a0, b0 = A_.snap(), B_.snap()
    c, gam = arr('const', (M,)), real('gamma')
    assume(gam > 0)
    every('cabs', lambda x: x != gam)       # ties with the threshold excluded
    log = kind != 'lin'
    if stft:
        Sfs = arr('Sfs', (M,))
        w = call(ALGOS + 'phase_stft_cpu', W, D, Sfs, gam, par)
    else:
        Sfs = None
        w = call(ALGOS + 'phase_cwt_cpu', W, D, gam, par)
    A1 = call(ALGOS + 'indexed_sum_onfly', W, w, g.vals, c, log, flip, A_, par)
    B1 = call(ALGOS + 'ssqueeze_fast', W, D, g.vals, c, log, flip, gam, B_, Sfs, par)
    r, j = index('r', nf), index('j', N)
    ensure('same transform', eq(O.sub(A1.at(r, j), a0(r, j)), O.sub(B1.at(r, j), b0(r, j))))


from . import sq

OPTS = [dict(get_w=w, get_dWx=d, preserve=p) for w in (False, True) for d in (False, True)
        for p in (None, True, False)]


@vc('ssq_cwt', 'ssqueezepy._ssq_cwt:ssq_cwt', 'ssqueezepy._ssq_cwt:phase_cwt', sq.SQ + 'ssqueeze',
    cases=OPTS + [dict(get_w=w, get_dWx=True, squeezing=q) for w in (False, True)
                  for q in ('abs', 'lebesgue', 'function')] +
    [dict(get_w=w, get_dWx=False, gamma=False, freqs='given') for w in (False, True)], timeout=40000)
def ssq_cwt(get_w, get_dWx, **kw):
    """the requested extra outputs never change the transform"""
    s = sq.whole_cwt(get_w, get_dWx, **kw)
    sq.whole_post(s, get_w, get_dWx)


@vc('ssq_stft', 'ssqueezepy._ssq_stft:ssq_stft', 'ssqueezepy._ssq_stft:phase_stft', sq.SQ + 'ssqueeze',
    cases=OPTS + [dict(get_w=w, get_dWx=True, squeezing=q) for w in (False, True)
                  for q in ('abs', 'lebesgue', 'function')] +
    [dict(get_w=w, get_dWx=False, gamma=False, freqs='given') for w in (False, True)], timeout=40000)
def ssq_stft(get_w, get_dWx, **kw):
    s = sq.whole_stft(get_w, get_dWx, **kw)
    sq.whole_post(s, get_w, get_dWx, 'stft')

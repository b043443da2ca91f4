"""C20  Frequency grid and shifts."""
from .common import *

W_ = 'ssqueezepy.wavelets:'


def freq(k, N):
    """2 pi k / N, negative beyond half the length"""
    k = zi(k)
    return O.mul(z3.ToReal(z3.If(k <= N / 2, k, k - N)), O.div(TWO_PI, N))


@vc('_xifn', W_ + '_xifn', cases=[dict(dt='float64'), dict(dt='float32')])
def xifn(dt):
    N = dim('N')
    s = real('s')
    xi = call(W_ + '_xifn', s, N, as_dtype(dt))
    k = index('k', N)
    ensure('length and dtype', both(shape_is(xi, N), xi.dtype.name == dt))
    ensure('grid', eq(xi.at(k), O.mul(s, freq(k, N))))


@vc('_xifn default', W_ + '_xifn')
def xifn_default():
    N = dim('N')
    xi = call(W_ + '_xifn', 1, N)
    k = index('k', N)
    ensure('grid', both(xi.dtype.name == 'float64', eq(xi.at(k), freq(k, N))))
    ensure('signs', both(implies(k <= N / 2, O.ge(xi.at(k), 0)), implies(k > N / 2, O.lt(xi.at(k), 0))))


@vc('afftshift', W_ + 'afftshift', W_ + 'aifftshift', W_ + '_afftshift_even', W_ + '_aifftshift_even',
    cases=[dict(odd=o, dt=d) for o in (0, 1) for d in ('float64', 'complex128')])
def centring(odd, dt):
    N = dim('N', 2)
    assume(N % 2 == odd)
    x = arr('x', (N,), dt)
    x0 = x.snap()
    k = index('k', N)
    a = call(W_ + 'afftshift', call(W_ + 'aifftshift', x))
    b = call(W_ + 'aifftshift', call(W_ + 'afftshift', x))
    ensure('lengths', both(shape_is(a, N), shape_is(b, N)))
    ensure('shifts undo each other', eq(a.at(k), x0(k)))
    ensure('shifts undo each other (reversed)', eq(b.at(k), x0(k)))
    c = call(W_ + 'aifftshift', x)
    # zero frequency (sample 0) goes to (N - 1) // 2; order is kept cyclically
    h = (N - 1) / 2
    ensure('centred order', eq(c.at(k), x0(z3.If(k >= h, k - h, k - h + N))))
    ensure('input untouched', eq(x.at(k), x0(k)))


@vc('fftshift', 'ssqueezepy.utils.fft_utils:FFT.fftshift', 'ssqueezepy.utils.fft_utils:FFT.ifftshift',
    cases=[dict(nd=n, ax=a) for n in (1, 2, 3) for a in range(n)])
def plain(nd, ax):
    sh = [dim('n%d' % i) for i in range(nd)]
    x = arr('x', sh)
    x0 = x.snap()
    F = 'ssqueezepy.utils.fft_utils:'
    i = [index('i%d' % d, n) for d, n in enumerate(sh)]
    n, k = sh[ax], i[ax]
    ensure('undo', eq(call(F + 'ifftshift', call(F + 'fftshift', x, ax), ax).at(*i), x0(*i)))
    src = list(i)
    h = n / 2
    src[ax] = z3.If(k >= h, k - h, k - h + n)
    y = call(F + 'fftshift', x, axes=ax)
    ensure('zero goes to n // 2', both(shape_is(y, *sh), eq(y.at(*i), x0(*src))))
    if ax == nd - 1:
        ensure('default axis', both(eq(call(F + 'fftshift', x).at(*i), y.at(*i)),
                                    eq(call(F + 'ifftshift', x).at(*i),
                                       call(F + 'ifftshift', x, axes=-1).at(*i))))


@vc('Wavelet.xifn', W_ + 'Wavelet.xifn', W_ + 'Wavelet.N', W_ + 'Wavelet.__init__', cases=[
    dict(kind=k, own=o, wav=w) for k in ('none', 'scalar', 'vector', 'column') for o in (False, True)
    for w in ('morlet', 'gmw', 'bump', 'cmhat', 'hhhat') if w == 'morlet' or k == 'vector'])
def wavelet_grid(kind, own, wav):
    N0, N1, N2, m = dim('N0'), dim('N1'), dim('N2'), dim('m', 2)
    w = call(W_ + 'Wavelet', (wav, {'dtype': 'float64'}), N0)
    k0 = index('k0', N0)
    xi = get(w, 'xi')
    ensure('grid of the wavelet', both(shape_is(xi, N0), eq(xi.at(k0), freq(k0, N0))))
    put(w, 'N', N1)
    xi = get(w, 'xi')
    k1 = index('k1', N1)
    ensure('grid after changing its length', both(shape_is(xi, N1), eq(xi.at(k1), freq(k1, N1)),
                                                  get(w, 'N') == N1))
    N, k = (N2, index('k2', N2)) if own else (N1, k1)
    kw = {'N': N2} if own else {}
    j = index('j', m)
    if kind == 'none':
        g = method(w, 'xifn', **kw)
        ensure('unscaled grid', both(shape_is(g, N), eq(g.at(k), freq(k, N))))
    elif kind == 'scalar':
        s = real('s')
        g = method(w, 'xifn', s, **kw)
        ensure('scaled grid', both(shape_is(g, N), eq(g.at(k), O.mul(s, freq(k, N)))))
    else:
        s = arr('s', (m,) if kind == 'vector' else (m, 1))
        v = s.at(j) if kind == 'vector' else s.at(j, 0)
        g = method(w, 'xifn', s, **kw)
        ensure('grid, one row per scale', both(shape_is(g, m, N), eq(g.at(j, k), O.mul(v, freq(k, N)))))

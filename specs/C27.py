"""C27  FFT wrapper equals the DFT, on every backend setting; earlier results stay.

The transforms themselves (scipy.fft, and the plans made by pyfftw) are replaced by their
contracts: an opaque function of the whole line along the axis, the inverse ones normalised."""
from .common import *

F = 'ssqueezepy.utils.fft_utils:'
MOD = 'ssqueezepy.utils.fft_utils'
NAMES = ['fft', 'ifft', 'rfft', 'irfft']


class Plan:
    """contract of a pyfftw.FFTW plan: executes into its own output array and returns that"""
    pyvc = True

    def __init__(self, a, b, axes, direction):
        self.input_array, self.output_array = a, b
        self.axis, self.direction = axes[0], direction

    def __call__(self):
        a, b = self.input_array, self.output_array
        fwd = self.direction == 'FFTW_FORWARD'
        ax = self.axis
        if a.dtype.kind == 'c' and b.dtype.kind == 'c':
            out = reference('fft' if fwd else 'ifft', a, ax)
        elif fwd:
            out = reference('rfft', a, ax)
        else:
            out = reference('irfft', a, ax, b.shape[ax])
        A.setitem(b, Ellipsis, out)
        return b


def reference(name, x, axis, n=None):
    g = N_._fft(name)
    return g(x, axis=axis, n=n) if n is not None else g(x, axis=axis)


class Fftw:
    """contract of the module pyfftw"""
    pyvc = True

    @staticmethod
    def empty_aligned(shape, dtype='float64', **kw):
        return sym_array(str(z3.FreshConst(z3.IntSort(), 'aligned')), tuple(shape), dtype)

    @staticmethod
    def FFTW(a, b, axes=(-1,), direction='FFTW_FORWARD', flags=(), planning_timelimit=None,
             threads=1, **kw):
        ax = axes[0]
        na, nb = a.shape[ax], b.shape[ax]
        ensure('plan: one axis, named direction', len(axes) == 1 and
               direction in ('FFTW_FORWARD', 'FFTW_BACKWARD'))
        ensure('plan: same precision', a.dtype.bits // (2 if a.dtype.kind == 'c' else 1) ==
               b.dtype.bits // (2 if b.dtype.kind == 'c' else 1))
        if a.dtype.kind == 'c' and b.dtype.kind == 'c':
            ensure('plan: lengths', eq(na, nb))
        elif a.dtype.kind == 'f':
            ensure('plan: lengths', both(direction == 'FFTW_FORWARD',
                                         eq(nb, O.add(O.floordiv(na, 2), 1))))
        else:
            ensure('plan: lengths', both(direction == 'FFTW_BACKWARD', b.dtype.kind == 'f',
                                         eq(na, O.add(O.floordiv(nb, 2), 1))))
        for d in range(a.ndim):
            if d != ax % a.ndim:
                ensure('plan: other axes', eq(a.shape[d], b.shape[d]))
        return Plan(a, b, axes, direction)

    @staticmethod
    def import_wisdom(w):
        return (True, True, True)

    @staticmethod
    def export_wisdom():
        return (b'', b'', b'')


def wrapper(planned, **kw):
    INTERP.stubs[F + 'FFT.load_wisdom'] = lambda self: None
    INTERP.stubs[F + 'FFT.save_wisdom'] = lambda self: None
    INTERP.environ['SSQ_PARALLEL'] = '0'
    m = INTERP.module(MOD)
    m.get('pyfftw')
    m.vars['pyfftw'] = None
    if not planned:
        return call(F + 'FFT', verbose=0, **kw)
    f = Fftw()
    f.config = N_.Model('config', settable=True)
    m.vars['pyfftw'] = f
    return call(F + 'FFT', verbose=0, **kw)


def line(name, nd, ax, dt, tag='x'):
    sh = [dim('n%d' % d, 2) for d in range(nd)]
    if name == 'irfft' or (name != 'rfft' and dt.startswith('c')):
        dt = {'float64': 'complex128', 'float32': 'complex64'}.get(dt, dt)
    elif name == 'rfft':
        dt = {'complex128': 'float64', 'complex64': 'float32'}.get(dt, dt)
    return sh, arr(tag, sh, dt), dt


def same_as(out, want, sh, ax, label):
    ensure(label + ': shape and precision', both(shape_is(out, *want.shape),
                                                 out.dtype.name == want.dtype.name))
    i = [index('i%d' % d, n) for d, n in enumerate(want.shape)]
    ensure(label + ': values', eq(out.at(*i), want.at(*i)))
    return i


AXES = [(1, 0), (1, -1), (2, 0), (2, 1), (2, -1)]
QUAL = {n: F + 'FFT.' + n for n in NAMES}


@vc('transform', *QUAL.values(), cases=[
    dict(name=n, nd=a, ax=b, dt=d, backend=p) for n in NAMES for a, b in AXES
    for d in ('float64', 'complex64') for p in (0, 1, 'default', (2, .5))])
def transform(name, nd, ax, dt, backend):
    if backend == 'default':
        w = wrapper(True, patience=1)
        kw = {}
    else:
        w = wrapper(backend != 0)
        kw = dict(patience=backend)
    sh, x, dt = line(name, nd, ax, dt)
    x0 = x.snap()
    if name == 'irfft':
        m = sh[ax]
        n = choose([None, 'even', 'odd'])
        if n is not None:
            n = O.mul(2, O.sub(m, 1)) if n == 'even' else O.add(O.mul(2, O.sub(m, 1)), 1)
            kw['n'] = n
    got = call(get(w, name), x, axis=ax, **kw)
    want = reference(name, frozen(x0, sh, dt), ax, kw.get('n'))
    same_as(got, want, sh, ax, name)
    ensure('input untouched', unchanged(x, x0))


def choose(options):
    """one of the options, each explored"""
    for k, o in enumerate(options[:-1]):
        if ctx.branch(z3.Bool('choice!%d' % k)):
            return o
    return options[-1]


def frozen(f, sh, dt):
    return A.new_arr(tuple(sh), A.as_dtype(dt), lambda *i: f(*i))


def unchanged(x, x0):
    i = [index('u%d' % d, n) for d, n in enumerate(x.shape)]
    return eq(x.at(*i), x0(*i))


@vc('history', *QUAL.values(), cases=[
    dict(first=a, second=b, cache=c) for a in NAMES for b in NAMES for c in (True, False)])
def history(first, second, cache):
    """two calls on any two arrays, shapes and axes equal or not: both right, the first kept"""
    w = wrapper(True, patience=1, cache_fft_objects=cache)
    sh1 = [dim('a', 2), dim('b', 2)]
    sh2 = [dim('c', 2), dim('d', 2)]
    dts = {n: 'float64' if n == 'rfft' else 'complex128' for n in NAMES}
    x, y = arr('x', sh1, dts[first]), arr('y', sh2, dts[second])
    x0, y0 = x.snap(), y.snap()
    ax2 = choose([-1, 0])

    def length(name, sh, ax, tag):
        """irfft: an even or odd length, or the default one"""
        if name == 'irfft' and ctx.branch(z3.Bool('odd!' + tag)):
            return dict(n=O.add(O.mul(2, O.sub(sh[ax], 1)), 1))
        return {}
    kw1, kw2 = length(first, sh1, -1, '1'), length(second, sh2, ax2, '2')

    def ref(name, v0, sh, ax, kw):
        return reference(name, frozen(v0, sh, dts[name]), ax, **kw)
    r1 = call(get(w, first), x, axis=-1, **kw1)
    v1 = r1.snap()
    r2 = call(get(w, second), y, axis=ax2, **kw2)
    same_as(r2, ref(second, y0, sh2, ax2, kw2), sh2, ax2, 'second call')
    want = ref(first, x0, sh1, -1, kw1)
    ensure('shape of the first result', shape_is(r1, *want.shape))
    k = [index('k%d' % d, n) for d, n in enumerate(want.shape)]
    ensure('first result kept', both(eq(r1.at(*k), want.at(*k)), eq(v1(*k), want.at(*k))))
    # the caller may overwrite what it was handed: the next call is unaffected
    A.setitem(r2, Ellipsis, 0.0)
    r3 = call(get(w, second), y, axis=ax2, **kw2)
    same_as(r3, ref(second, y0, sh2, ax2, kw2), sh2, ax2, 'third call')


@vc('round trip', *QUAL.values(), cases=[dict(nd=a, ax=b, backend=p) for a, b in AXES
                                          for p in (0, 1)])
def round_trip(nd, ax, backend):
    w = wrapper(backend != 0)
    sh = [dim('n%d' % d, 2) for d in range(nd)]
    x, r = arr('x', sh, 'complex128'), arr('r', sh, 'float64')
    x0, r0 = x.snap(), r.snap()
    p = dict(axis=ax, patience=backend)
    a = call(get(w, 'ifft'), call(get(w, 'fft'), x, **p), **p)
    b = call(get(w, 'irfft'), call(get(w, 'rfft'), r, **p), n=sh[ax], **p)
    i = [index('i%d' % d, n) for d, n in enumerate(sh)]
    ensure('shapes', both(shape_is(a, *sh), shape_is(b, *sh)))
    ensure('ifft undoes fft', eq(a.at(*i), x0(*i)))
    ensure('irfft undoes rfft', eq(b.at(*i), r0(*i)))


@vc('rejected', *QUAL.values(), cases=[dict(what=w) for w in ('axis', 'dtype', 'rfft', 'no pyfftw')])
def rejected(what):
    w = wrapper(what != 'no pyfftw')
    n, m = dim('n', 2), dim('m', 2)
    if what == 'axis':
        raises(lambda: call(get(w, 'fft'), arr('x', (n, m), 'complex128'), axis=2, patience=1))
    elif what == 'dtype':
        raises(lambda: call(get(w, 'fft'), arr('x', (n, m), 'int64'), patience=1))
    elif what == 'rfft':
        raises(lambda: call(get(w, 'rfft'), arr('x', (n, m), 'complex128'), patience=1))
    else:
        raises(lambda: call(get(w, 'fft'), arr('x', (n, m), 'complex128'), patience=1))


def raises(f):
    try:
        f()
    except SymRaise as e:
        ensure('rejected', e.cls in ('TypeError', 'ValueError'))
        return
    ensure('rejected', False)


@vc('settings', F + 'FFT.patience', F + 'FFT.threads', cases=[dict(par=p) for p in (False, True)])
def settings(par):
    w = wrapper(True)
    INTERP.stubs['ssqueezepy.configs:IS_PARALLEL'] = lambda: par
    ensure('default', get(w, 'patience') == 0)
    put(w, 'patience', (1, .5))
    ensure('both kept', both(get(w, 'patience') == 1, get(w, 'planning_timelimit') == .5))
    put(w, 'patience', 2)
    ensure('level kept', both(get(w, 'patience') == 2, get(w, 'planning_timelimit') == .5))
    ensure('threads', get(w, 'threads') == (8 if par else 1))
    v = wrapper(True, threads=3)
    ensure('threads given', get(v, 'threads') == 3)


@vc('module functions', F + 'fft', cases=[dict(name=n) for n in NAMES])
def module_functions(name):
    m = INTERP.module(MOD)
    INTERP.stubs[F + 'FFT.load_wisdom'] = lambda self: None
    m.get('pyfftw')
    m.vars['pyfftw'] = None
    sh, x, dt = line(name, 2, -1, 'complex128')
    x0 = x.snap()
    with code(name):
        got = INTERP.call(m.get(name), [x], {})
    same_as(got, reference(name, frozen(x0, sh, dt), -1), sh, -1, name)

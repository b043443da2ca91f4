"""C22  Calls do not modify inputs, settings or later calls.

Frame conditions: every array handed in keeps its cells, every object and module
setting of the package that existed before a call keeps its value (also when the call
fails half-way), and repeating a call after others gives the same result."""
from .common import *
from . import cw, sq

S_ = 'ssqueezepy.'
WARM = [('configs', None), ('utils.fft_utils', 'FFT_GLOBAL'), ('wavelets', 'Wavelet'),
        ('utils.common', None), ('_test_signals', 'DEFAULT_ARGS')]


def warm():
    for m, names in WARM:
        mod = INTERP.module(S_ + m)
        for n in ([names] if names else list(mod.binders)):
            try:
                mod.get(n)
            except (SymRaise, Unsupported):
                pass


def world():
    """structural snapshot of the settings of the package"""
    out = {}
    for mn, mod in list(INTERP.modules.items()):
        if not mn.startswith('ssqueezepy'):
            continue
        for n, v in list(mod.vars.items()):
            if 'cache' not in n.lower():
                out[(mn, n)] = freeze(v, 0, set())
    return out


def freeze(v, depth, seen):
    if isinstance(v, (str, int, float, bool, complex, bytes)) or v is None or is_z3(v):
        return ('v', v)
    if id(v) in seen or depth > 6:
        return ('id', id(v))
    seen = seen | {id(v)}
    if isinstance(v, Arr):
        return ('arr', v.shape, v.snap())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [freeze(x, depth + 1, seen) for x in v])
    if isinstance(v, dict):
        return ('dict', list(v), [freeze(v[k], depth + 1, seen) for k in v])
    if isinstance(v, (set, frozenset)):
        return ('set', sorted(map(repr, v)))
    if isinstance(v, I_.PyObj):
        return ('obj', id(v), freeze(dict(v.attrs), depth + 1, seen))
    if isinstance(v, I_.PyFunc):
        return ('fn', id(v), freeze([v.defaults, v.kwdefaults, v.attrs], depth + 1, seen))
    if isinstance(v, I_.PyClass):
        return ('cls', id(v), freeze(dict(v.ns), depth + 1, seen))
    return ('id', id(v))


def same(a, b):
    if a[0] != b[0]:
        return False
    k = a[0]
    if k == 'v':
        x, y = a[1], b[1]
        if is_z3(x) or is_z3(y) or isinstance(x, (int, float)) and not isinstance(x, bool):
            return type(x) == type(y) and eq(x, y) if (is_z3(x) or is_z3(y) or x == x) else y != y
        return x == y and type(x) == type(y)
    if k in ('id', 'set'):
        return a[1] == b[1]
    if k == 'arr':
        if len(a[1]) != len(b[1]):
            return False
        idx = [index('cell%d' % i, n) for i, n in enumerate(a[1])]
        return both(*[eq(x, y) for x, y in zip(a[1], b[1])], eq(a[2](*idx), b[2](*idx)))
    if k in ('list', 'tuple'):
        return len(a[1]) == len(b[1]) and both(True, *[same(x, y) for x, y in zip(a[1], b[1])])
    if k == 'dict':
        return a[1] == b[1] and both(True, *[same(x, y) for x, y in zip(a[2], b[2])])
    return a[1] == b[1] and same(a[2], b[2])


class Frame:
    """values of arrays, objects and package settings at entry"""

    def __init__(self, **things):
        warm()
        self.things = things
        self.before = {k: freeze(v, 0, set()) for k, v in things.items()}
        self.world = world()

    def check(self, when='', skip=()):
        for k, v in self.things.items():
            ensure('%s unchanged%s' % (k, when), same(self.before[k], self.strip(freeze(v, 0, set()), self.before[k], skip)))
        now = world()
        for k, v in self.world.items():
            if k in now:
                g = same(v, now[k])
                if g is not True:
                    ensure('setting %s.%s unchanged%s' % (k[0], k[1], when), g)
            else:
                ensure('setting %s.%s still there%s' % (k[0], k[1], when), False)
        ensure('settings unchanged%s' % when, True)

    def strip(self, now, before, skip):
        """private caches of an object may change or appear"""
        if now[0] != 'obj' or before[0] != 'obj':
            return now
        keys, vals, b = [], [], dict(zip(before[2][1], before[2][2]))
        for k in before[2][1]:
            if k in now[2][1]:
                keys.append(k)
                vals.append(b[k] if k in skip else now[2][2][now[2][1].index(k)])
        return ('obj', now[1], ('dict', keys, vals))


CACHES = ('_Psih', '_Psih_N', '_Psih_scale', '_Psih_nohalf')


def fft_global():
    return INTERP.module(S_ + 'utils.fft_utils').get('FFT_GLOBAL')


@vc('cwt', cw.CW + 'cwt', cases=[
    dict(vec=v, deriv=d, cache=c, fail=f) for v, c in ((True, True), (True, False), (False, None))
    for d in (False, True) for f in (None, 'wavelet', 'patience') if (f is None or not d) and (v or f != 'wavelet')], timeout=30000)
def cwt(fail, **case):
    """signal, scales, the wavelet object and the FFT settings; also when the call fails"""
    s = cw.cwt_case(pad='reflect', **case)
    N0 = dim('N0', 3)
    put(s.wavelet, 'N', N0)
    warm()
    F = fft_global()
    F.attrs.update({k: v for k, v in (('_patience', 0), ('planning_timelimit', 77)) if k in F.attrs})
    f = Frame(x=s.x, scales=s.scales, wavelet=s.wavelet, fft=F)
    if fail == 'wavelet':
        def boom(w):
            raise SymRaise('ValueError', 'from the wavelet')
        s.wavelet.attrs['fn'] = user_function('lambda w: psi_(w)', psi_=boom)
        f.before['wavelet'] = freeze(s.wavelet, 0, set())
        e = raises(lambda: cw.run(s))
        ensure('failure reported', e == 'ValueError')
    elif fail == 'patience':
        e = raises(lambda: cw.run(s, patience='often'))
        ensure('failure reported', e in ('TypeError', 'ValueError'))
    else:
        cw.run(s)
    f.check(skip=CACHES)


@vc('cwt with bad samples', cw.CW + 'cwt', 'ssqueezepy.utils.common:replace_at_inf_or_nan',
    cases=[dict(batch=b) for b in (False, True)], timeout=30000)
def cwt_nan(batch):
    """the copy, not the signal, is repaired"""
    N, B = dim('N', 2), dim('B', 2)
    x = arr('x', (B, N) if batch else (N,), 'float64', ext=True)
    x0 = x.snap()
    s = cw.cwt_case(pad='reflect', batch=batch)
    s.x = x
    r = cw.run(s, nan_checks=True)
    idx = (index('b', B), index('u', N)) if batch else (index('u', N),)
    ensure('signal untouched', eq(x.at(*idx), x0(*idx)))


@vc('ssq_cwt', S_ + '_ssq_cwt:ssq_cwt', sq.SQ + 'ssqueeze', cases=[
    dict(get_w=w, preserve=p, squeezing=q, batch=b) for w in (False, True) for p in (True, False)
    for q in ('sum', 'abs', 'lebesgue') for b in (False, True) if not (w and b)], timeout=30000)
def ssq_cwt(get_w, **kw):
    warm()
    w0 = Frame()
    s = sq.whole_cwt(get_w, True, freqs='given', **kw)
    w0.check()
    sq.whole_post(s, get_w, True)
    k = index('k', s.nf)
    ensure('given frequencies untouched', eq(s.given.at(k), s.g.value(k)))
    i = index('i', s.M)


@vc('ssq_stft', S_ + '_ssq_stft:ssq_stft', sq.SQ + 'ssqueeze', cases=[
    dict(get_w=w, preserve=p, squeezing=q, batch=b) for w in (False, True) for p in (True, False)
    for q in ('sum', 'abs') for b in (False, True) if not (w and b)], timeout=30000)
def ssq_stft(get_w, **kw):
    warm()
    w0 = Frame()
    s = sq.whole_stft(get_w, True, freqs='given', **kw)
    w0.check()
    sq.whole_post(s, get_w, True, 'stft')
    k = index('k', s.nf)
    ensure('given frequencies untouched', eq(s.given.at(k), s.g.value(k)))


@vc('ssqueeze', sq.SQ + 'ssqueeze', cases=[c for c in sq.SOME if c.get('freqs') == 'given'], timeout=30000)
def ssqueeze(**case):
    s = sq.ssq_case(**case)
    f = Frame(Wx=s.W, dWx=s.D, scales=s.scales, freqs=s.given)
    sq.run(s)
    f.check()


from . import C01, C02, C03, C12, C13, C14, C16, C28, C29, C30


def framed(thunk):
    """run another contract for its setting only: its input arrays and the settings stay"""
    warm()
    del INPUTS[:]
    w0 = Frame()
    MUTED[0] = True
    try:
        thunk()
    finally:
        MUTED[0] = False
    inputs = list(INPUTS)
    for k, (name, a, old) in enumerate(inputs):
        idx = [index('cell%d' % d, n) for d, n in enumerate(a.shape)]
        ensure('input %s unchanged' % name, eq(a.at(*idx), old(*idx)))
    w0.check()


OTHERS = [
    ('padsignal', C01.padsignal, [dict(kind=k, batch=b, auto=True) for k in C01.TYPES for b in (False, True)]),
    ('phase_cwt', C02.phase_cwt, [dict(par=p, dt='complex128', dflt=d) for p in (False, True) for d in (False, True)]),
    ('phase_stft', C02.phase_stft, [dict(par=p, dt='complex128', dflt=d) for p in (False, True) for d in (False, True)]),
    ('buffer', C12.buffer, [dict(mod=m, par=p, batch=b) for m in (False, True) for p in (False, True) for b in (False, True)]),
    ('stft', C12.stft, [dict(mod=m, batch=b, deriv=True) for m in (False, True) for b in (False, True)]),
    ('get_window', C12.get_window, [dict(deriv=d, full=f) for d in (False, True) for f in (False, True)]),
    ('window_norm', C13.window_norm, [dict(a=a) for a in (0, 1)]),
    ('istft', C13.recover, [dict(mod=m, a=1) for m in (True, False)]),
    ('issq_cwt', C14.issq_cwt, [dict(K=0, one_d=False), dict(K=1, one_d=True), dict(K=2, one_d=False)]),
    ('issq_stft', C14.issq_stft, [dict(K=k, given=True) for k in (0, 1, 2)]),
    ('extract_ridges', C16.removed, None),
    ('phase_cwt numeric', C30.phase_cwt_num, [dict(order=o, dt_='real', dflt=False) for o in (1, 2, 4)]),
    ('phase_cwt phase', C30.phase_difference, [dict(dt='complex128')]),
]


def registered(f):
    return [c.case for c in REG if c.fn is f]


for _name, _f, _cases in OTHERS:
    def _run(_f=_f, **case):
        framed(lambda: _f(**case))
    _own = [c for c in registered(_f)]
    _cases = [c for c in (_cases or _own) if c in _own] or _own[:2]
    _run.__module__ = __name__
    vc('frame of ' + _name, cases=_cases, timeout=30000)(_run)

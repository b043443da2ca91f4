"""C17  Scale vectors: increasing, within range, of the requested kind."""
from .common import *

U = 'ssqueezepy.utils.cwt_utils:'
LN2 = lambda: O.log_('log', 2)


def lookup(sc, k):
    return sc.at(k, 0)


def power(m, nv):
    return O.pow_(2, O.div(m, nv, 'raw'))


def bounds(defaults):
    N = dim('N', 2)
    if defaults:
        return N, 1, N, {}
    lo, hi = real('lo'), real('hi')
    assume(both(lo > 0, lo < hi))
    return N, lo, hi, dict(min_scale=lo, max_scale=hi)


def increasing(sc, n):
    k = index('k+', O.sub(n, 1))
    ensure('increasing', O.lt(lookup(sc, k), lookup(sc, k + 1)))
    ensure('positive', O.gt(lookup(sc, k), 0))


def exponents(lo, hi, nv):
    """m, na: 2**(m/nv) is the last of the nv-per-octave grid not above lo; na steps reach hi"""
    e0 = O.mul(nv, O.log_('log2', lo))
    span = O.mul(nv, O.log_('log2', O.div(hi, lo)))
    return N_.NP.floor(e0), N_.NP.ceil(span), e0, span


def ratio_facts(lo, hi, nv):
    ensure('ratio', O.lt(1, O.div(hi, lo)))
    r = O.log_('log2', O.div(hi, lo))
    ensure('octaves', O.gt(r, 0))
    assume(eq(r, O.sub(O.log_('log2', hi), O.log_('log2', lo))))


@vc('geometric', U + 'make_scales', cases=[dict(defaults=d) for d in (False, True)])
def geometric(defaults):
    N, lo, hi, kw = bounds(defaults)
    nv = dim('nv')
    ratio_facts(lo, hi, nv)
    m, na, e0, span = exponents(lo, hi, nv)
    sc = call(U + 'make_scales', N, nv=nv, scaletype='log', **kw)
    n = sc.shape[0]
    k = index('k', n)
    ensure('column', both(sc.ndim == 2, eq(sc.shape[1], 1), sc.dtype.name == 'float64'))
    ensure('number', both(O.le(span, n), O.lt(n, O.add(span, 1)), O.ge(n, 1)))
    ensure('voices per octave', eq(lookup(sc, k), power(O.add(m, k), nv)))
    ensure('starts at the last step not above the least scale', both(O.le(m, e0), O.lt(e0, O.add(m, 1))))
    ensure('below the greatest scale', O.lt(O.add(m, k), O.add(e0, span)))
    increasing(sc, n)
    for v in (lo, hi):
        assume(eq(P.uf('pow2', P.R, P.R)(zr(O.log_('log2', v))), v))
    first, last = lookup(sc, 0), lookup(sc, O.sub(n, 1))
    ensure('exponent of the first', both(O.le(O.div(m, nv, 'raw'), O.log_('log2', lo)),
                                         O.lt(O.log_('log2', lo), O.div(O.add(m, 1), nv, 'raw'))))
    ensure('exponent of the last', O.lt(O.div(O.add(m, O.sub(n, 1)), nv, 'raw'), O.log_('log2', hi)))
    ensure('first in range', both(O.le(first, lo), O.lt(lo, power(O.add(m, 1), nv))))
    ensure('last in range', O.lt(last, hi))


@vc('uniform', U + 'make_scales', cases=[dict(defaults=d) for d in (False, True)])
def uniform(defaults):
    N, lo, hi, kw = bounds(defaults)
    nv = dim('nv')
    ratio_facts(lo, hi, nv)
    m, na, e0, span = exponents(lo, hi, nv)
    a, b = power(m, nv), power(O.add(m, na), nv)
    ensure('ends in order', both(O.gt(a, 0), O.lt(a, b)))
    ensure('quotient of the ends', O.gt(O.div(b, a, 'raw'), 1))
    sc = call(U + 'make_scales', N, nv=nv, scaletype='linear', **kw)
    n = sc.shape[0]
    ensure('number', both(eq(n, N_.NP.ceil(O.div(b, a, 'raw'))), O.ge(n, 2)))
    ensure('column', both(sc.ndim == 2, eq(sc.shape[1], 1), sc.dtype.name == 'float64'))
    k = index('k', n)
    step = O.div(O.sub(b, a), O.sub(n, 1), 'raw')
    ensure('uniform', eq(lookup(sc, k), O.add(a, O.mul(k, step))))
    ensure('first', eq(lookup(sc, 0), a))
    ensure('last', eq(lookup(sc, O.sub(n, 1)), b))
    ensure('range', both(O.le(m, e0), O.lt(e0, O.add(m, 1)), O.lt(O.sub(O.add(e0, span), 1), O.add(m, na)),
                         O.lt(O.add(m, na), O.add(O.add(e0, span), 1))))
    ensure('step', O.gt(step, 0))
    increasing(sc, n)


@vc('two slopes', U + 'make_scales', cases=[dict(found=f, given=g) for f in (False, True) for g in (False, True)])
def piecewise(found, given):
    N, lo, hi, kw = bounds(False)
    nv = dim('nv')
    ratio_facts(lo, hi, nv)
    m, na, e0, span = exponents(lo, hi, nv)
    ds = dim('ds') if given else 4
    if given:
        kw['downsample'] = ds
    w = object()
    idx = integer('idx', 0, O.sub(na, 1)) if found else None

    def find(wavelet, s):
        n = s.shape[0]
        k = index('k!s', n)
        ensure('searched in the full vector', both(wavelet is w, eq(n, na), eq(s.at(k), power(O.add(m, k), nv))))
        return idx
    INTERP.stubs[U + 'find_downsampling_scale'] = find
    sc = call(U + 'make_scales', N, nv=nv, scaletype='log-piecewise', wavelet=w, **kw)
    n = sc.shape[0]
    k = index('k', n)
    ensure('column', both(sc.ndim == 2, eq(sc.shape[1], 1), sc.dtype.name == 'float64'))
    if not found:
        ensure('full vector', both(eq(n, na), eq(lookup(sc, k), power(O.add(m, k), nv))))
        return
    # exponents: steps of one before element idx, of downsample from element idx - 1 on
    e = lambda k: ite(O.lt(k, idx), O.add(m, k), O.add(m, O.sub(O.add(idx, O.mul(ds, O.add(O.sub(k, idx), 1))), 1)))
    ensure('elements', eq(lookup(sc, k), power(e(k), nv)))
    j = index('j', O.sub(n, 1))
    ensure('slopes', eq(O.sub(e(j + 1), e(j)), ite(O.lt(O.add(j, 1), idx), 1, ds)))
    end = e(O.sub(n, 1))
    ensure('within range', implies(n >= 1, both(O.ge(e(k), m), O.le(e(k), O.sub(O.add(m, na), 1)))))
    ensure('reaches the end', O.gt(O.add(end, ds), O.sub(O.add(m, na), 1)))
    increasing(sc, n)


@vc('unknown kind', U + 'make_scales', cases=[dict(kind=k) for k in ('loglin', None, 'log-piecewise')])
def unknown(kind):
    N, lo, hi, kw = bounds(False)
    try:
        call(U + 'make_scales', N, scaletype=kind, **kw)
    except SymRaise as e:
        ensure('rejected', e.cls == 'ValueError')
        return
    ensure('rejected', False)


PRESET = {None: dict(cutoff=-.5, lo=.6, hi=.8), 'minimal': dict(cutoff=-.5, lo=.6, hi=.8),
          'maximal': dict(cutoff=-.5)}


@vc('bounds', U + 'cwt_scalebounds', cases=[dict(preset=p, padded=q, given=False)
    for p in (None, 'minimal', 'maximal', 'naive') for q in (True, False)] + [dict(preset=None, padded=True, given=True)])
def cwt_scalebounds(preset, padded, given):
    N = dim('N')
    w = object()
    up = integer('up', zi(N))
    lo, hi = real('lo'), real('hi')
    seen = []
    INTERP.stubs['ssqueezepy.utils.common:p2up'] = lambda n: (up, 0, 0) if n is N else None

    def min_scale(wavelet, cutoff=1):
        seen.append(('min', wavelet, cutoff))
        return lo

    def max_scale(wavelet, n, bin_loc=1, bin_amp=1):
        seen.append(('max', wavelet, n, bin_loc, bin_amp))
        return hi

    def max_scale_alt(wavelet, n, min_cutoff=.1, max_cutoff=.8):
        seen.append(('alt', wavelet, n, min_cutoff, max_cutoff))
        return hi
    for f, g in (('find_min_scale', min_scale), ('find_max_scale', max_scale), ('find_max_scale_alt', max_scale_alt)):
        INTERP.stubs[U + f] = g
    kw = {}
    cuts = (.6, .8, -.5)
    if given:
        c0, c1, c2 = cuts = real('c0'), real('c1'), real('c2')
        assume(both(c0 > 0, c1 >= c0))
        kw = dict(min_cutoff=c0, max_cutoff=c1, cutoff=c2)
    got = call(U + 'cwt_scalebounds', w, N, preset=preset, use_padded_N=padded, **kw)
    if preset == 'naive':
        ensure('naive', both(eq(got[0], 1), eq(got[1], N), not seen))
        return
    n = up if padded else N
    ensure('bounds', both(len(got) == 2, eq(got[0], lo), eq(got[1], hi)))
    ensure('one of each', both(len(seen) == 2, seen[0][0] == 'min', seen[0][1] is w, seen[1][1] is w))
    ensure('cutoff', eq(seen[0][2], cuts[2]))
    ensure('length', eq(seen[1][2], n))
    if preset == 'maximal':
        ensure('peak in the second bin', both(seen[1][0] == 'max', seen[1][3] == 2, seen[1][4] == 1))
    else:
        ensure('cutoffs', both(seen[1][0] == 'alt', eq(seen[1][3], cuts[0]), eq(seen[1][4], cuts[1])))


@vc('unknown preset', U + 'cwt_scalebounds', cases=[dict(preset=p) for p in ('max', 'Maximal', 3)])
def unknown_preset(preset):
    try:
        call(U + 'cwt_scalebounds', object(), dim('N'), preset=preset)
    except SymRaise as e:
        ensure('rejected', e.cls == 'ValueError')
        return
    ensure('rejected', False)


@vc('least scale', U + 'find_min_scale', cases=[dict(right=r) for r in (True, False)])
def find_min_scale(right):
    """the wavelet is cut at Nyquist where it is `cutoff` of its peak"""
    wp, pk, wc, cut = real('w_peak'), real('peak'), real('w_cut'), real('cutoff')
    assume(cut > 0 if right else cut <= 0)
    w = wavelet_stub()
    find_stubs(w, wp, pk, wc, lambda value, start, limit: (
        eq(value, O.mul(O.fabs(cut), pk)), eq(start, wp if right else 0), eq(limit, O.mul(10, wp) if right else wp)))
    r = call(U + 'find_min_scale', w, cut)
    ensure('scale', eq(O.mul(r, O.div(TWO_PI, 2)), wc))


class Fn:
    pass


def wavelet_stub():
    w = Fn()
    w.fn = Fn()
    return w


def find_stubs(w, wp, pk, wc, check):
    INTERP.stubs['ssqueezepy.wavelets:Wavelet._init_if_not_isinstance'] = lambda *a, **kw: a[-1]

    def find_maximum(f, *a, **kw):
        ensure('peak of the wavelet', f is w.fn)
        return wp, pk

    def first(f, value=None, step_start=None, step_limit=None, **kw):
        ensure('searched in the wavelet', f is w.fn)
        for n, g in zip(('value', 'from', 'to'), check(value, step_start, step_limit)):
            ensure('searched: ' + n, g)
        return wc, value
    INTERP.stubs['ssqueezepy.algos:find_maximum'] = find_maximum
    INTERP.stubs['ssqueezepy.algos:find_first_occurrence'] = first


KIND = ('log', 'linear', 'log-piecewise')
STRINGS = [(k, p) for k in KIND for p in (None, 'maximal', 'minimal', 'naive')]


@vc('named', U + 'process_scales', cases=[dict(kind=k, preset=p, full=f, padded=q, nvs=n) for k, p in STRINGS
    for f, q, n in ((True, True, 'int'), (False, False, None), (True, False, 'float'))])
def named(kind, preset, full, padded, nvs):
    N = dim('N')
    w = object()
    lo, hi = real('lo'), real('hi')
    nv = {'int': lambda: dim('nv'), None: lambda: None, 'float': lambda: 16.}[nvs]()
    want_nv = {'int': nv, None: 32, 'float': 16}[nvs]
    s = arr('scales', (dim('na'), 1))

    def scalebounds(wavelet, N=None, preset=None, use_padded_N=True, **kw):
        ensure('bounds for the same wavelet and length', both(wavelet is w, eq(N, N0), use_padded_N == padded, not kw))
        want = preset0 if preset0 or kind != 'log-piecewise' else 'maximal'
        ensure('preset', preset == want)
        return lo, hi
    N0, preset0 = N, preset

    def make(n, a=None, b=None, nv=32, scaletype='log', wavelet=None, downsample=None):
        ensure('made within the bounds', both(eq(n, N0), eq(a, lo), eq(b, hi)))
        ensure('made as asked', both(scaletype == kind, wavelet is w, eq(nv, want_nv), downsample is None))
        return s
    INTERP.stubs[U + 'cwt_scalebounds'] = scalebounds
    INTERP.stubs[U + 'make_scales'] = make
    r = call(U + 'process_scales', kind + (':' + preset if preset else ''), N, w, nv=nv, get_params=full,
             use_padded_N=padded)
    if full:
        ensure('parameters', both(len(r) == 4, r[1] == kind, eq(r[2], s.shape[0]), eq(r[3], want_nv)))
        r = r[0]
    ensure('scales', r is s)


@vc('given', U + 'process_scales', cases=[dict(kind=k, col=c, full=f, nvg=g) for k in KIND for c in (False, True)
                                          for f, g in ((True, False), (False, False), (True, True))])
def given(kind, col, full, nvg):
    """used as given; kind and voices as detected (C18)"""
    n = dim('n', 2)
    nv = dim('nv')
    s = arr('scales', (n, 1) if col else (n,))
    s0 = s.snap()
    per = arr('nvs', (n, 1))
    found = {'log': nv, 'linear': None, 'log-piecewise': per}[kind]

    def infer(v):
        k = index('k!v', n)
        ensure('detected in the same vector', both(eq(v.shape[0], n), eq(v.at(k, 0) if v.ndim == 2 else v.at(k),
                                                                         s0(k, 0) if col else s0(k))))
        return kind, found
    INTERP.stubs[U + 'infer_scaletype'] = infer
    pass_nv = nv if nvg else None
    if nvg and kind == 'log-piecewise':
        pass_nv = dim('other')
    r = call(U + 'process_scales', s, dim('N'), object(), nv=pass_nv, get_params=full)
    if full:
        ensure('parameters', both(len(r) == 4, r[1] == kind, eq(r[2], n)))
        want = pass_nv if kind == 'linear' else found
        ensure('voices', r[3] is want if not z3.is_expr(want) else eq(r[3], want))
        r = r[0]
    k = index('k', n)
    ensure('as given', both(shape_is(r, n, 1), r.dtype.name == 'float64', eq(r.at(k, 0), s0(k, 0) if col else s0(k))))
    ensure('left alone', eq(s.at(k, 0) if col else s.at(k), s0(k, 0) if col else s0(k)))


@vc('contradicted', U + 'process_scales')
def contradicted():
    n, nv, other = dim('n', 2), dim('nv'), dim('other')
    assume(nv != other)
    INTERP.stubs[U + 'infer_scaletype'] = lambda v: ('log', nv)
    rejected(arr('scales', (n,)), 'Exception', nv=other)


def rejected(scales, cls, wavelet=True, **kw):
    try:
        call(U + 'process_scales', scales, dim('N'), object() if wavelet else None, **kw)
    except SymRaise as e:
        ensure('rejected', e.cls == cls)
        return
    ensure('rejected', False)


@vc('rejected', U + 'process_scales', cases=[dict(what=w) for w in (
    '2d', 'list', 'name', 'preset', 'no wavelet', 'nv=0', 'nv<0', 'nv=2.5', 'number', 'none')])
def bad(what):
    cls, kw = 'ValueError', {}
    s = 'log:naive'
    if what == '2d':
        s = arr('scales', (dim('n', 2), dim('m', 2)))
    elif what == 'list':
        s, cls = [1., 2., 4.], 'TypeError'
    elif what in ('number', 'none'):
        s, cls = 5 if what == 'number' else None, 'TypeError'
    elif what in ('name', 'preset'):
        s = 'logs' if what == 'name' else 'log:biggest'
    elif what == 'no wavelet':
        kw = dict(wavelet=False)
    elif what == 'nv<0':
        kw = dict(nv=O.sub(0, dim('v')))
    else:
        kw = dict(nv=0 if what == 'nv=0' else 2.5)
    rejected(s, cls, **kw)

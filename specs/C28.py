"""C28  Configured defaults fill exactly what the caller left out."""
import itertools
import os
from .common import *

CFG = 'ssqueezepy.configs:'


def table():
    """configs.ini of the code under test, read here independently"""
    D, mod, obj = {}, None, None
    for line in open(os.path.join(I_.REPO, 'ssqueezepy', 'configs.ini')):
        line = line.strip()
        if line == '#### END':
            break
        if line.startswith('## '):
            mod = line[3:]
        elif line.startswith('# '):
            obj = mod + '.' + line[2:]
            D[obj] = {}
        elif '=' in line:
            a, b = [t.strip().strip('"\'') for t in line.split('=')]
            if b in ('True', 'False', 'None'):
                b = {'True': True, 'False': False, 'None': None}[b]
            else:
                try:
                    b = float(b)
                except ValueError:
                    pass
            D[obj][a] = b
    return D


def given_values(names):
    """an arbitrary value for every name (0 and every other falsy number included)"""
    return {a: real('v_' + a) for a in names}


def same_value(a, b):
    if is_z3(a) or is_z3(b):
        return eq(a, b)
    return a is b or (type(a) == type(b) and a == b)


def check_dict(what, got, want, order=None):
    ensure(what + ': names', set(got) == set(want) and (order is None or list(got) == list(order)))
    for a in want:
        ensure(what + ': value', same_value(got[a], want[a]))


CASES = []
for o_, d_ in sorted(table().items()):
    for n_ in range(len(d_) + 1):
        for s_ in itertools.combinations(sorted(d_), n_):
            CASES.append(dict(obj=o_, passed=s_))


@vc('gdefaults', CFG + 'gdefaults', CFG + '_get_gdefaults', cases=CASES)
def gdefaults(obj, passed):
    """every subset of the arguments of every configurable routine, arbitrary values"""
    D = table()[obj]
    vals = given_values(passed)
    # an argument that has no configured default stays as it is
    extra = real('v_extra')
    kw = {a: vals.get(a) for a in D}
    kw.update(extra=extra, other=None)
    want = dict({a: vals.get(a, D[a]) for a in D}, extra=extra, other=None)
    names = list(kw)
    r = call(CFG + 'gdefaults', obj, as_dict=True, **kw)
    check_dict('dict', r, want, names)
    r = list(call(CFG + 'gdefaults', obj, **kw))
    ensure('values: number', len(r) == len(names))
    for a, v in zip(names, r):
        ensure('values in order', same_value(v, want[a]))
    # arguments named by the caller only; the others stay out unless all are asked for
    r = call(CFG + 'gdefaults', obj, as_dict=True, **vals)
    check_dict('named only', r, vals, list(vals))
    r = call(CFG + 'gdefaults', obj, get_all=True, **vals)
    check_dict('all', r, {a: vals.get(a, D[a]) for a in D})
    r = call(CFG + 'gdefaults', obj, get_all=True, default_order=True, extra=extra, **vals)
    check_dict('configured order', r, dict({a: vals.get(a, D[a]) for a in D}, extra=extra),
               [*D, 'extra'])
    for a in D:
        r = call(CFG + 'gdefaults', obj, **{a: vals.get(a)})
        ensure('single argument', same_value(r, vals.get(a, D[a])))
    r = call(CFG + 'gdefaults', obj + '_nowhere', as_dict=True, **kw)
    check_dict('unknown routine', r, kw, names)


WAV = {'morlet': ('wavelets.morlet', ('mu',)), 'bump': ('wavelets.bump', ('mu', 's', 'om')),
       'cmhat': ('wavelets.cmhat', ('mu', 's')), 'hhhat': ('wavelets.hhhat', ('mu',)),
       'gmw': ('_gmw.gmw', ('gamma', 'beta', 'norm', 'order', 'centered_scale'))}
W_ = 'ssqueezepy.wavelets:'


@vc('wavelet options', W_ + 'Wavelet.__init__', W_ + 'Wavelet._validate_and_set_wavelet',
    W_ + 'morlet', W_ + 'bump', W_ + 'cmhat', W_ + 'hhhat', 'ssqueezepy._gmw:gmw', cases=[
        dict(wav=w, passed=s) for w in WAV for n in range(len(WAV[w][1]) + 1)
        for s in itertools.combinations(WAV[w][1], n)])
def wavelet_options(wav, passed):
    """leaving an argument out equals passing its configured value, at every frequency"""
    obj, names = WAV[wav]
    D = table()[obj]
    vals = {}
    for a in passed:
        if a == 'norm':
            vals[a] = 'energy'
        elif a == 'order':
            vals[a] = 0
        elif a == 'centered_scale':
            vals[a] = True
        else:
            vals[a] = real(a)
            assume(vals[a] > 1)
    full = {a: vals.get(a, D[a]) for a in names}
    full['order'] = 0
    if wav != 'gmw':
        del full['order']
    n = dim('n', 2)
    w = arr('w', (n,))
    i = index('i', n)
    built = dict(vals, dtype='float64')
    kept = dict(built)
    A_ = call(W_ + 'Wavelet', (wav, built))
    a = call(get(A_, 'fn'), w)
    b = call(get(call(W_ + 'Wavelet', (wav, dict(full, dtype='float64'))), 'fn'), w)
    ensure('same length', both(shape_is(a, n), shape_is(b, n)))
    ensure('same value', eq(a.at(i), b.at(i)))
    if wav != 'bump':                       # complex-valued: may drop the imaginary part
        ensure('value of the object', eq(call(A_, w).at(i), a.at(i)))
    check_dict('options of the caller', built, kept, list(kept))
    # positional and keyword passing of the function behind it
    f = {'gmw': 'ssqueezepy._gmw:gmw'}.get(wav, W_ + wav)
    pos = [vals.get(x) for x in names]
    c = call(call(f, *pos, 'float64'), w)
    d = call(call(f, dtype='float64', **vals), w)
    ensure('positional and keyword', both(eq(c.at(i), a.at(i)), eq(d.at(i), a.at(i))))


AL = 'ssqueezepy.algos:'


def _reaches(kind):
    """how many parallel loops a call with this `parallel` reaches"""
    M, N = dim('M', 2), dim('N', 2)
    W, D = arr('Wx', (M, N), 'complex128'), arr('dWx', (M, N), 'complex128')
    g = real('gamma')
    assume(g > 0)
    if kind == 'indexed_sum':
        k = arr('k', (M, N), 'int32')
        every('k', lambda x: z3.And(x >= 0, x < M))
        return lambda p: call(AL + 'indexed_sum', W, k, parallel=p)
    if kind == 'phase_cwt':
        return lambda p: call('ssqueezepy._ssq_cwt:phase_cwt', W, D, gamma=g, parallel=p)
    if kind == 'phase_stft':
        return lambda p: call('ssqueezepy._ssq_stft:phase_stft', W, D, arr('Sfs', (M,)), gamma=g, parallel=p)
    if kind == 'replace_under_abs':
        return lambda p: call(AL + 'replace_under_abs', arr('x', (M, N)), W, g, 0., p)
    if kind == 'zero_denormals':
        return lambda p: call(AL + 'zero_denormals', arr('x', (M, N)), p)
    if kind == 'buffer':
        L = integer('L')
        assume(both(L >= 2, L <= N))
        return lambda p: call('ssqueezepy.utils.stft_utils:buffer', arr('x', (N,)), L, 1, False, p)
    const = real('c')
    from .C03 import use_grid
    v = Grid('lin', dim('nf', 2))
    use_grid(v)
    out = arr('Tx', (v.n, N), 'complex128')
    if kind == 'indexed_sum_onfly':
        w = arr('w', (M, N), 'float64', ext='p')
        every('w', lambda x: x >= 0)
        return lambda p: call(AL + 'indexed_sum_onfly', W, w, v.vals, const, False, False, out, p)
    return lambda p: call(AL + 'ssqueeze_fast', W, D, v.vals, const, False, False, g, out, None, p)


@vc('parallel as asked', AL + '_process_ssq_params', AL + 'indexed_sum', AL + 'phase_cwt_cpu', AL + 'phase_stft_cpu',
    AL + 'replace_under_abs', AL + 'zero_denormals', 'ssqueezepy.utils.stft_utils:buffer',
    cases=[dict(kind=k, asked=a) for k in ('indexed_sum', 'indexed_sum_onfly', 'ssqueeze_fast', 'phase_cwt', 'phase_stft',
                                           'replace_under_abs', 'zero_denormals', 'buffer')
           for a in (False, None)])
def parallel_as_asked(kind, asked):
    """parallel=False is sequential whatever is configured; None is sequential where that is configured"""
    INTERP.stubs['ssqueezepy.configs:IS_PARALLEL'] = lambda: asked is False
    run_ = _reaches(kind)
    n0 = I_.PRANGES[0]
    run_(asked)
    ensure('no parallel loop is reached', I_.PRANGES[0] == n0)

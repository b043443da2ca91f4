"""Contract of ssqueezing.ssqueeze, shared by C04, C05, C07 and C08.

The callees with contracts of their own (indexed_sum_onfly and ssqueeze_fast: C03;
phase transforms: C02; scale and frequency grids: C17-C19) are replaced by them."""
from .common import *

SQ = 'ssqueezepy.ssqueezing:'
AL = 'ssqueezepy.algos:'
NAMES = {'lin': 'linear', 'log': 'log', 'piecewise': 'log-piecewise'}


def tot(g, flip, M, r, w, live, V, c, j):
    """sum over rows of the (weighted) coefficients binned to row r"""
    i = P.bindvar('i')
    k = g.bin(w(i, j))
    k = O.sub(g.omax, k) if flip else k
    v = V(i, j)
    zero = Cx(0.0, 0.0) if isinstance(v, Cx) else 0.0
    return A.make_sum([(i, 0, M)], True, ite(both(live(i, j), eq(k, r)), O.mul(v, c(i)), zero))


def wsnap(w):
    """value and finiteness of a phase transform"""
    if w is None:
        return None
    return w.snap()


def reassign(out, g, flip, M, w, live, V, c):
    o = out.snap()
    n, N = out.shape
    A.setitem(out, Ellipsis, A.new_arr((n, N), out.dtype, lambda r, j: O.add(
        o(r, j), tot(g, flip, M, r, w, live, V, c, j))))


def weights(const, M):
    if isarr(const):
        s = const.snap()
        ensure('one weight per row', shape_is(const, M))
        return lambda i: s(i)
    return lambda i: const


def grid_stubs(g):
    """contracts of the reassignment kernels on the grid g (proved in specs/C03.py)"""
    def check(freqs, log, out, W):
        k = index('k!g', g.n)
        ensure('grid handed on', both(shape_is(freqs, g.n), eq(freqs.at(k), g.value(k))))
        ensure('kind of spacing handed on', bool(log) == (g.kind != 'lin'))
        ensure('one output row per frequency', shape_is(out, g.n, W.shape[1]))

    def onfly(Wx, w, ssq_freqs, const=1, logscale=False, flipud=False, out=None, parallel=None):
        check(ssq_freqs, logscale, out, Wx)
        w0, V = w.snap(), Wx.snap()
        M = Wx.shape[0]
        reassign(out, g, flipud, M, w0, lambda i, j: no(O.isinf(w0(i, j))), V, weights(const, M))
        return out

    def fast(Wx, dWx, ssq_freqs, const, logscale=False, flipud=False, gamma=None, out=None,
             Sfs=None, parallel=None):
        check(ssq_freqs, logscale, out, Wx)
        V, D = Wx.snap(), dWx.snap()
        M = Wx.shape[0]
        f = Sfs.snap() if Sfs is not None else None
        w = freq_of(V, D, f)
        reassign(out, g, flipud, M, w, lambda i, j: O.ge(mag(V(i, j)), gamma), V, weights(const, M))
        return out
    INTERP.stubs[AL + 'indexed_sum_onfly'] = onfly
    INTERP.stubs[AL + 'ssqueeze_fast'] = fast


def freq_of(V, D, f=None):
    if f is None:
        return lambda i, j: O.fabs(omega(V(i, j), D(i, j)))
    return lambda i, j: O.fabs(O.sub(f(i), omega(V(i, j), D(i, j))))


def phase_stubs():
    """contracts of the phase transforms (proved in specs/C02.py)"""
    def run(W, D, f, gam):
        V, E = W.snap(), D.snap()
        w = freq_of(V, E, f)

        def val(i, j):
            low = O.lt(mag(V(i, j)), gam)
            return mk_ext(w(i, j), low, False, False)
        d = A.as_dtype('float32' if W.dtype.name == 'complex64' else 'float64')
        return A.new_arr(W.shape, d, val)
    INTERP.stubs[AL + 'phase_cwt_cpu'] = lambda W, D, gamma, parallel=None: run(W, D, None, gamma)
    INTERP.stubs[AL + 'phase_stft_cpu'] = lambda W, D, Sfs, gamma, parallel=None: run(
        W, D, Sfs.snap(), gamma)


class Setup:
    pass


def ssq_case(transform='cwt', kind='log', freqs='given', squeezing='sum', fused=False, flip=False,
             batch=False, cwt_kind='log', gamma=None, default_stft=False):
    s = Setup()
    s.kind, s.transform = kind, transform
    s.M, s.N, s.B = dim('M', 3), dim('N', 3), dim('B', 2)
    s.nf = s.M if freqs != 'given' else dim('nf', 3)
    whole_stft = transform == 'whole_stft'
    transform = 'stft' if whole_stft else transform
    s.fs = real('fs')
    assume(s.fs > 0)
    if default_stft:        # rows of the STFT: 0 to half the sampling rate
        s.g = g = Grid(kind, s.nf, z3.RealVal(0), O.div(O.mul(0.5, s.fs), O.sub(s.nf, 1), 'raw'))
    else:
        s.g = g = Grid(kind, s.nf)
    sh = (s.B, s.M, s.N) if batch else (s.M, s.N)
    s.W, s.D = arr('Wx', sh, 'complex128'), arr('dWx', sh, 'complex128')
    s.gam = real('gamma') if gamma is None else zr(gamma)
    assume(s.gam > 0)
    every('cabs', lambda x: x != s.gam)
    s.scales = arr('scales', (s.M, 1))
    s.nv = real('nv')
    assume(s.nv > 0)
    every('scales', lambda x: x > 0)
    s.Sfs = None
    if default_stft or whole_stft:
        df = O.div(O.mul(0.5, s.fs), O.sub(s.M, 1), 'raw')
        s.Sfs = A.new_arr((s.M,), A.as_dtype('float64'), lambda i: O.mul(df, i))
    elif transform == 'stft':
        s.Sfs = arr('Sfs', (s.M,))
    s.w = None
    if not fused:
        s.w = arr('w', sh, 'float64', ext='p')
        every('w', lambda x: x >= 0)
    s.wavelet = A.Marker('wavelet') if hasattr(A, 'Marker') else object()
    grid_stubs(g)
    phase_stubs()
    s.asked = []

    def process_scales(scales, N, wavelet=None, nv=None, get_params=False, **kw):
        ensure('scales handed on', scales is s.scales and get_params is True)
        ensure('length handed on', eq(N, s.N))
        return s.scales, NAMES[cwt_kind], s.M, s.nv

    def infer_scaletype(v):
        k = index('k!i', s.nf)
        ensure('kind of the given frequencies', both(shape_is(v, s.nf), eq(v.at(k), g.value(k))))
        return NAMES[kind], s.nv

    def frequencies(scales, N, wavelet, ssq_scaletype, maprange, was_padded=True, dt=1,
                    transform_='cwt', **kw):
        s.asked.append((scales, N, wavelet, ssq_scaletype, maprange, was_padded, dt,
                        kw.get('transform', transform_)))
        ensure('grid requested', ssq_scaletype == NAMES[kind])
        return A.copy_arr(g.vals)
    INTERP.stubs[SQ + '_compute_associated_frequencies'] = frequencies
    INTERP.stubs['ssqueezepy.utils.cwt_utils:process_scales'] = process_scales
    INTERP.stubs['ssqueezepy.utils.cwt_utils:infer_scaletype'] = infer_scaletype
    s.sq = user_function('lambda W: W * W') if squeezing == 'function' else squeezing
    s.kw = dict(squeezing=s.sq, flipud=flip)
    if freqs == 'given':
        s.kw['ssq_freqs'] = s.given = A.copy_arr(g.vals)
    elif freqs == 'kind':
        s.kw['ssq_freqs'] = NAMES[kind]
    if transform == 'cwt':
        s.kw.update(scales=s.scales, maprange='peak', wavelet=s.wavelet)
    else:
        s.kw.update(transform='stft', Sfs=s.Sfs, maprange='maximal')
    if fused:
        s.kw.update(dWx=s.D, gamma=s.gam)
    # the specified result
    V, E = s.W.snap(), s.D.snap()
    w0 = s.w.snap() if s.w is not None else None
    f = s.Sfs.snap() if s.Sfs is not None else None
    sc = s.scales.snap()
    if transform == 'stft':
        d = O.sub(g.value(1), g.value(0))
        c = lambda i: d
    elif cwt_kind == 'lin':
        c = lambda i: O.div(O.sub(sc(1, 0), sc(0, 0)), sc(i, 0), 'raw')
    else:
        c = lambda i: O.div(O.log_('log', 2), s.nv, 'raw')

    def value(r, j, b=None, flipped=flip):
        p = (b,) if batch else ()
        Vb, Eb = (lambda i, j: V(*p, i, j)), (lambda i, j: E(*p, i, j))
        if fused:
            w = freq_of(Vb, Eb, f)
            live = lambda i, j: O.ge(mag(Vb(i, j)), s.gam)
        else:
            w = lambda i, j: w0(*p, i, j)
            live = lambda i, j: no(O.isinf(w0(*p, i, j)))
        U = {'sum': Vb, 'abs': lambda i, j: mag(Vb(i, j)),
             'lebesgue': lambda i, j: Cx(O.div(1.0, s.M, 'raw'), 0.0),
             'function': lambda i, j: O.mul(Vb(i, j), Vb(i, j))}[squeezing]
        return tot(g, flipped, s.M, r, w, live, U, c, j)
    s.value, s.c = value, c
    s.V, s.E, s.w0 = V, E, w0
    s.batch, s.flip = batch, flip
    return s


def run(s, **kw):
    return call(SQ + 'ssqueeze', s.W, s.w, **dict(s.kw, **kw))


SOME = [dict(transform='cwt', kind='log', freqs=f, fused=u, flip=p)
        for f in ('none', 'given', 'kind') for u in (False, True) for p in (False, True)]
SOME += [dict(transform='cwt', kind=k, freqs=f, fused=u, flip=p) for k in ('lin', 'piecewise')
         for f, u, p in (('given', True, True), ('given', False, False), ('kind', True, False),
                         ('kind', False, True))]
SOME += [dict(transform='cwt', kind='lin', freqs='none', fused=u, cwt_kind='lin', flip=p)
         for u in (False, True) for p in (False, True)]
SOME += [dict(transform='cwt', kind='log', freqs='given', squeezing=q, fused=u, flip=p)
         for q in ('abs', 'lebesgue', 'function') for u, p in ((False, True), (True, False))]
SOME += [dict(transform='stft', kind='lin', freqs='given', fused=u, flip=p)
         for u in (False, True) for p in (False, True)]
SOME += [dict(transform='stft', kind='lin', freqs='given', squeezing=q, fused=u, flip=False)
         for q in ('abs', 'lebesgue', 'function') for u in (False, True)]
SOME += [dict(transform=t, kind='lin' if t == 'stft' else 'log', freqs='given', fused=u, flip=p, batch=True)
         for t in ('cwt', 'stft') for u in (False, True) for p in (False, True)]
SOME += [dict(transform='cwt', kind='log', freqs='given', fused=u, squeezing=q, batch=True)
         for u in (False, True) for q in ('abs', 'function')]


def whole_cwt(get_w=False, get_dWx=False, preserve=None, flip=True, freqs='none', squeezing='sum',
              kind='log', cwt_kind='log', gamma=True, batch=False, pad='reflect', t=False):
    """ssq_cwt, end to end over the contract of cwt"""
    from .cw import custom_wavelet
    s = ssq_case('cwt', kind, freqs, squeezing, True, flip, batch, cwt_kind,
                 gamma=None if gamma else 10 * 2.0**-52)
    s.wavelet = custom_wavelet()
    s.x = arr('x', (s.B, s.N) if batch else (s.N,), 'float64')
    s.x0 = s.x.snap()
    s.W0, s.D0 = A.copy_arr(s.W), A.copy_arr(s.D)

    def process_scales(scales, N, wavelet=None, nv=None, get_params=False, **kw):
        ensure('length handed on', eq(N, s.N))
        if not get_params:
            return A.copy_arr(s.scales)
        return A.copy_arr(s.scales), NAMES[cwt_kind], s.M, s.nv

    def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=None, l1_norm=True,
            derivative=False, padtype='reflect', rpadded=False, vectorized=True, astensor=True,
            cache_wavelet=None, order=0, average=None, nan_checks=None, patience=0):
        i = index('i!c', s.M)
        j = index('j!c', s.N)
        p = (index('b!c', s.B),) if batch else ()
        ensure('the signal is transformed', both(shape_is(x, *s.x.shape), eq(x.at(*p, j), s.x0(*p, j))))
        ensure('the wavelet is used', wavelet is s.wavelet)
        ensure('sampling rate', eq(fs, s.fs) if t is None else False)
        ensure('padding', both(padtype == pad, rpadded is False))
        ensure('L1 normalized, with derivative', both(l1_norm is True, derivative is True, order == 0))
        ensure('scales', eq(scales.at(i, 0) if scales.ndim == 2 else scales.at(i), s.scales.at(i, 0)))
        return A.copy_arr(s.W), A.copy_arr(s.scales), A.copy_arr(s.D)
    INTERP.stubs['ssqueezepy.utils.cwt_utils:process_scales'] = process_scales
    INTERP.stubs['ssqueezepy._cwt:cwt'] = cwt
    kw = dict(wavelet=s.wavelet, scales=s.scales, fs=s.fs, get_w=get_w, get_dWx=get_dWx,
              preserve_transform=preserve, flipud=flip, squeezing=s.sq, maprange='peak', padtype=pad,
              gamma=s.gam if gamma else None)
    kw.update({k: v for k, v in s.kw.items() if k == 'ssq_freqs'})
    s.res = call('ssqueezepy._ssq_cwt:ssq_cwt', s.x, **kw)
    return s


def whole_stft(get_w=False, get_dWx=False, preserve=None, flip=False, freqs='none', squeezing='sum',
               gamma=True, batch=False):
    """ssq_stft, end to end over the contract of stft"""
    s = ssq_case('whole_stft', 'lin', freqs, squeezing, True, flip, batch,
                 gamma=None if gamma else 10 * 2.0**-52, default_stft=freqs == 'none')
    n_fft, hop = dim('n_fft', 2), dim('hop')
    s.Nx = dim('Nx', 2)
    s.x = arr('x', (s.B, s.Nx) if batch else (s.Nx,), 'float64')
    s.x0 = s.x.snap()
    window = arr('window', (n_fft,))

    def stft(x, window_=None, n_fft_=None, win_len=None, hop_len=1, fs=None, t=None, padtype='reflect',
             modulated=True, derivative=False, dtype=None, **kw):
        j = index('j!c', s.Nx)
        p = (index('b!c', s.B),) if batch else ()
        ensure('the signal is transformed', both(shape_is(x, *s.x.shape), eq(x.at(*p, j), s.x0(*p, j))))
        ensure('settings handed on', both(
            (kw.get('window') is window or window_ is window), eq(kw.get('n_fft', n_fft_), n_fft),
            eq(hop_len, hop), eq(fs, s.fs), t is None, padtype == 'wrap', modulated is True,
            derivative is True, win_len is None, dtype == 'float64'))
        return A.copy_arr(s.W), A.copy_arr(s.D)
    INTERP.stubs['ssqueezepy._stft:stft'] = stft
    s.f0 = s.Sfs.snap()
    kw = dict(window=window, n_fft=n_fft, hop_len=hop, fs=s.fs, get_w=get_w, get_dWx=get_dWx,
              preserve_transform=preserve, flipud=flip, squeezing=s.sq, padtype='wrap', dtype='float64',
              gamma=s.gam if gamma else None)
    kw.update({k: v for k, v in s.kw.items() if k == 'ssq_freqs'})
    s.res = call('ssqueezepy._ssq_stft:ssq_stft', s.x, **kw)
    return s


def whole_post(s, get_w, get_dWx, transform='cwt'):
    """every output of the whole transform"""
    T, W, f, rows = s.res[:4]
    ensure('number of outputs', len(s.res) == 4 + bool(get_w) + bool(get_dWx))
    r, j, b, i = index('r', s.nf), index('j', s.N), index('b', s.B), index('i', s.M)
    p = (b,) if s.batch else ()
    pre = (s.B,) if s.batch else ()
    ensure('shapes', both(shape_is(T, *pre, s.nf, s.N), shape_is(W, *pre, s.M, s.N), shape_is(f, s.nf),
                          shape_is(rows, s.M)))
    back = O.sub(O.sub(s.nf, 1), r)
    ensure('frequencies', eq(f.at(r), s.g.value(back if s.flip else r)))
    ensure('row r collects frequency r', eq(T.at(*p, r, j), s.value(r, j, b if s.batch else None)))
    ensure('transform returned', eq(W.at(*p, i, j), s.V(*p, i, j)))
    ensure('rows of the transform', eq(rows.at(i), s.Sfs.at(i) if transform == 'stft' else s.scales.at(i, 0)))
    if get_w:
        w = s.res[4]
        ensure('shape of the phase transform', shape_is(w, s.M, s.N))
        F = s.Sfs.snap() if transform == 'stft' else None
        V = lambda i, j: s.V(i, j)
        want = mk_ext(freq_of(V, lambda i, j: s.E(i, j), F)(i, j), O.lt(mag(V(i, j)), s.gam), False, False)
        ensure('phase transform', eq(w.at(i, j), want))
    if get_dWx:
        D = s.res[-1]
        ensure('derivative', both(shape_is(D, *pre, s.M, s.N), eq(D.at(*p, i, j), s.E(*p, i, j))))
    u = index('u', s.x.shape[-1])
    ensure('signal untouched', eq(s.x.at(*p, u), s.x0(*p, u)))

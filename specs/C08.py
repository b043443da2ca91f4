"""C08  A batch equals its signals alone: every stage is row by row.

The closed forms below are those proved for single signals (C01, C07, C10, C12)."""
from .common import *
from . import sq, cw, C01, C10, C11, C12
from .sq import SQ

U_ = 'ssqueezepy.utils.'


@vc('padsignal', U_ + 'common:padsignal', cases=[dict(kind=k, auto=a) for k in C01.TYPES for a in (False, True)])
def padsignal(kind, auto):
    C01.padsignal(kind, True, auto)


@vc('buffer', U_ + 'stft_utils:buffer', cases=[dict(mod=m, par=p) for m in (False, True) for p in (False, True)])
def buffer(mod, par):
    C12.buffer(mod, par, True)


@vc('stft', C12.SF + 'stft', cases=[dict(mod=m, deriv=d) for m in (False, True) for d in (False, True)])
def stft(mod, deriv):
    C12.stft(mod, True, deriv)


@vc('cwt', cw.CW + 'cwt', 'ssqueezepy.wavelets:Wavelet.__call__', cases=[
    dict(pad='reflect', batch=True, vec=v) for v in (True, False)] +
    [dict(pad=None, batch=True, vec=True, l1=False), dict(pad='zero', batch=True, vec=True, rpadded=True),
     dict(pad='zero', batch=True, vec=True, deriv=True)], timeout=30000)
def cwt(**case):
    s = cw.cwt_case(**case)
    r = cw.run(s)
    i, j, b = index('i', s.M), index('j', s.cols), index('b', s.B)
    ensure('one transform per signal', shape_is(r[0], s.B, s.M, s.cols))
    ensure('as for the signal alone', eq(r[0].at(b, i, j), s.value(i, j, b)))
    if s.deriv:
        ensure('derivative as for the signal alone', eq(r[2].at(b, i, j), s.value(i, j, b, True)))


@vc('ssqueeze', SQ + 'ssqueeze', SQ + '_compute_phase_transform', cases=[
    dict(transform=t, kind='lin' if t == 'stft' else 'log', freqs='given', fused=u, flip=p, squeezing=q)
    for t in ('cwt', 'stft') for u in (False, True) for p in (False, True)
    for q in ('sum', 'abs', 'lebesgue', 'function')], timeout=30000)
def ssqueeze(**case):
    """reassigning a batch, and reassigning one of its transforms alone"""
    s = sq.ssq_case(batch=True, **case)
    b = index('b', s.B)
    kw = dict(s.kw)
    one = dict(kw)
    with code('batch item'):
        W1 = A.copy_arr(A.getitem(s.W, b))
        w1 = A.copy_arr(A.getitem(s.w, b)) if s.w is not None else None
        if 'dWx' in kw:
            one['dWx'] = A.copy_arr(A.getitem(s.D, b))
    T, f = call(SQ + 'ssqueeze', s.W, s.w, **kw)
    T1, f1 = call(SQ + 'ssqueeze', W1, w1, **one)
    r, j = index('r', s.nf), index('j', s.N)
    ensure('shapes', both(shape_is(T, s.B, s.nf, s.N), shape_is(T1, s.nf, s.N)))
    ensure('as for the transform alone', eq(T.at(b, r, j), T1.at(r, j)))
    ensure('same frequencies', eq(f.at(r), f1.at(r)))


@vc('ssq_cwt', 'ssqueezepy._ssq_cwt:ssq_cwt', SQ + 'ssqueeze', cases=[
    dict(flip=p, get_dWx=d, squeezing=q, preserve=v) for p in (False, True) for d in (False, True)
    for q in ('sum', 'abs') for v in (True, False)], timeout=30000)
def ssq_cwt(get_dWx, **kw):
    s = sq.whole_cwt(False, get_dWx, batch=True, **kw)
    sq.whole_post(s, False, get_dWx)


@vc('ssq_stft', 'ssqueezepy._ssq_stft:ssq_stft', SQ + 'ssqueeze', cases=[
    dict(flip=p, get_dWx=d, squeezing=q, preserve=v) for p in (False, True) for d in (False, True)
    for q in ('sum', 'abs') for v in (True, False)], timeout=30000)
def ssq_stft(get_dWx, **kw):
    s = sq.whole_stft(False, get_dWx, batch=True, **kw)
    sq.whole_post(s, False, get_dWx, 'stft')


@vc('icwt', cw.CW + 'icwt', cw.CW + '_icwt_1int', cases=[dict(c, batch=True, mean=m) for c in C11.ONE
                                                         for m in ('scalar', 'vector')], timeout=20000)
def icwt(**case):
    C11.one_integral(**case)


@vc('higher orders', cw.CW + 'cwt_higher_order', cases=[
    dict(orders=o, average=a, deriv=True, l1=True) for o, a in ((2, None), ((0, 1), None), ((0, 2), False))])
def higher(**case):
    C10.higher(batch=True, **case)

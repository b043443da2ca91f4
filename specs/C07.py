"""C07  Rows and frequencies correspond; row order is only a flip."""
from .common import *
from . import sq
from .sq import SQ


@vc('ssqueeze', SQ + 'ssqueeze', SQ + '_compute_phase_transform', cases=sq.SOME, timeout=30000)
def ssqueeze(**case):
    """row r collects what is nearest to frequency r of the returned vector"""
    s = sq.ssq_case(**case)
    T, f = sq.run(s)
    r, j, b = index('r', s.nf), index('j', s.N), index('b', s.B)
    p = (b,) if s.batch else ()
    ensure('one row per frequency', both(shape_is(f, s.nf), shape_is(
        T, *((s.B,) if s.batch else ()), s.nf, s.N)))
    back = O.sub(O.sub(s.nf, 1), r)
    ensure('frequencies', eq(f.at(r), s.g.value(back if s.flip else r)))
    ensure('row r collects frequency r', eq(T.at(*p, r, j), s.value(r, j, b if s.batch else None)))
    ensure('same rows reversed', eq(s.value(r, j, b if s.batch else None, True),
                                    s.value(back, j, b if s.batch else None, False)))
    i = index('i', s.M)
    ensure('transform untouched', eq(s.W.at(*p, i, j), s.V(*p, i, j)))
    ensure('derivative untouched', eq(s.D.at(*p, i, j), s.E(*p, i, j)))


@vc('ssq_cwt', 'ssqueezepy._ssq_cwt:ssq_cwt', SQ + 'ssqueeze', cases=[
    dict(flip=p, freqs=f, get_w=w, pad=q) for p in (False, True) for f in ('none', 'given', 'kind')
    for w in (False, True) for q in ('reflect', None)], timeout=30000)
def ssq_cwt(get_w, **kw):
    s = sq.whole_cwt(get_w, False, **kw)
    sq.whole_post(s, get_w, False)


@vc('ssq_stft', 'ssqueezepy._ssq_stft:ssq_stft', SQ + 'ssqueeze', cases=[
    dict(flip=p, freqs=f, get_w=w) for p in (False, True) for f in ('none', 'given')
    for w in (False, True)], timeout=30000)
def ssq_stft(get_w, **kw):
    s = sq.whole_stft(get_w, False, **kw)
    sq.whole_post(s, get_w, False, 'stft')

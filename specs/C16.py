"""C16  Ridge outputs: frequencies and energies read at the ridge, then removed."""
from .common import *
from .C15 import tracked, XC, R_


@vc('extract_ridges', R_ + 'extract_ridges', cases=[c for c in XC if c['params']], timeout=30000)
def outputs(**c):
    d = tracked(**c)
    f, t = d['f'], d['t']
    idx, rf, re_ = d['out']
    ensure('one value per time and ridge', both(shape_is(rf, d['N'], c['k']),
                                                shape_is(re_, d['N'], c['k'])))
    for n in range(c['k']):
        r = d['paths'][n](t)
        ensure('ridge %d' % n, eq(at(idx, t, n), r))
        ensure('frequency at ridge %d' % n, eq(at(rf, t, n), d['scale'](r)))
        # energy of the transform where no earlier ridge's band was removed, else zero
        ensure('energy at ridge %d' % n, eq(at(re_, t, n), d['energy'](n)(r, t)))
    ensure('transform unchanged', eq(d['T'].at(f, t), d['T0'](f, t)))
    ensure('scales unchanged', eq(d['s'].at(f, 0) if d['s'].ndim == 2 else d['s'].at(f),
                                  d['scale'](f)))


@vc('band removed', R_ + 'extract_ridges', cases=[
    dict(k=k, transform='cwt', params=False, dt='complex128', sc2=False, par=True)
    for k in (2, 3)], timeout=30000)
def removed(**c):
    """the last search sees nothing of the earlier ridges' bands"""
    d = tracked(**c)
    f, t, bw = d['f'], d['t'], d['bw']
    n = c['k'] - 1
    e = d['passes'][n][0]
    r = d['paths'][n - 1](t)
    assume(both(O.ge(f, O.sub(r, bw)), O.lt(f, O.add(r, bw))))
    ensure('energy in the band is zero', eq(e(f, t), -P.uf('log', P.R, P.R)(zr(2.0**-52))))

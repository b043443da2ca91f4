import os
import numpy as np
from .base import case, ensure, close, same, Skip
import ssqueezepy
from ssqueezepy import configs
from ssqueezepy.configs import gdefaults


def table():
    """configs.ini read independently"""
    D, mod, obj = {}, None, None
    for line in open(os.path.join(os.path.dirname(configs.__file__), 'configs.ini')):
        line = line.strip()
        if line == '#### END':
            break
        if line.startswith('## '):
            mod = line[3:]
        elif line.startswith('# '):
            obj = mod + '.' + line[2:]
            D[obj] = {}
        elif '=' in line:
            a, b = [t.strip().strip('"\'') for t in line.split('=')]
            if b in ('True', 'False', 'None'):
                b = {'True': True, 'False': False, 'None': None}[b]
            else:
                try:
                    b = float(b)
                except ValueError:
                    pass
            D[obj][a] = b
    return D


@case(quick=300)
def merge(rng, k):
    D = table()
    objs = sorted(D)
    o = objs[k % len(objs)]
    d = D[o]
    kw, want = {}, {}
    names = list(d) + ['extra', 'other']
    rng.shuffle(names)
    for a in names:
        u = rng.integers(0, 3)
        if u == 0:
            kw[a] = want[a] = [0, False, '', 7.5, 'given', ()][rng.integers(0, 6)]
        elif u == 1:
            kw[a] = None
            want[a] = d.get(a)
    if not kw:
        raise Skip()
    kw0 = dict(kw)
    i = dict(obj=o, passed=kw0)
    r = gdefaults(o, as_dict=True, **kw)
    ensure(r == want and list(r) == list(kw0), 'dict of values', got=r, want=want, **i)
    ensure(kw == kw0, 'caller changed')
    v = gdefaults(o, **kw)
    if len(kw) == 1:
        ensure(v == list(want.values())[0], 'single value', got=v, want=want, **i)
    else:
        ensure(list(v) == [want[a] for a in kw0], 'values in order', got=list(v), want=want, **i)
    full = dict(d)
    full.update(want)
    r = gdefaults(o, get_all=True, as_dict=True, **kw)
    ensure(r == full, 'get_all', got=r, want=full, **i)
    r = gdefaults(o, get_all=True, as_dict=True, default_order=True, **kw)
    ensure(r == full and list(r)[:len(d)] == list(d), 'default order', got=r, want=full, **i)


@case(quick=12)
def wavelets(rng, k):
    from ssqueezepy import Wavelet
    D = table()
    w = np.linspace(-3, 20, 60)
    for name, o in (('morlet', 'wavelets.morlet'), ('bump', 'wavelets.bump'),
                    ('cmhat', 'wavelets.cmhat'), ('hhhat', 'wavelets.hhhat'), ('gmw', '_gmw.gmw')):
        d = {a: b for a, b in D[o].items()}
        d['dtype'] = 'float64'
        if name == 'gmw':
            d['order'] = int(d['order'])
        other = {}
        for a in d:
            if a in ('dtype', 'norm', 'order', 'centered_scale'):
                continue
            if rng.random() < .5:
                other[a] = float(d[a] + rng.uniform(.3, 2))
        some = dict(other, dtype='float64')
        full = dict(d, **other)
        with np.errstate(all='ignore'):
            A, B = Wavelet((name, some))(w), Wavelet((name, full))(w)
        same(A, B, 'leaving an argument out differs from passing its default', wavelet=name, options=some)
        if other:
            with np.errstate(all='ignore'):
                C = Wavelet((name, dict(dtype='float64')))(w)
            ensure(not np.array_equal(np.nan_to_num(A), np.nan_to_num(C)), 'argument ignored', wavelet=name, options=some)


@case(quick=1)
def scales_downsample(rng, k):
    from ssqueezepy.utils import make_scales
    from ssqueezepy import Wavelet
    w = Wavelet('gmw')
    kw = dict(min_scale=2, max_scale=400, nv=16, scaletype='log-piecewise', wavelet=w)
    d = int(table()['utils.cwt_utils.make_scales']['downsample'])
    same(make_scales(1024, **kw), make_scales(1024, downsample=d, **kw), 'downsample default')
    a, b = make_scales(1024, downsample=2, **kw), make_scales(1024, downsample=d, **kw)
    ensure(d == 2 or len(a) != len(b), 'downsample ignored')


@case(quick=8)
def parallel_flag(rng, k):
    from ssqueezepy.configs import IS_PARALLEL
    old = os.environ.get('SSQ_PARALLEL')
    try:
        v = [None, '0', '1', '']['0123'.index(str(k % 4))]
        if v is None:
            os.environ.pop('SSQ_PARALLEL', None)
        else:
            os.environ['SSQ_PARALLEL'] = v
        conf = table()['configs.IS_PARALLEL']['parallel']
        ensure(IS_PARALLEL() == (v != '0' and conf != 0), 'parallel flag', env=v)
    finally:
        os.environ.pop('SSQ_PARALLEL', None)
        if old is not None:
            os.environ['SSQ_PARALLEL'] = old


@case(quick=6)
def nan_checks(rng, k):
    """nan_checks=False leaves non-finite samples alone, True replaces them, at every order"""
    from ssqueezepy import cwt
    x = rng.standard_normal(64)
    x[10] = np.nan
    o = [0, 1, (0, 1)][k % 3]
    kw = dict(wavelet=('gmw', {'dtype': 'float64'}), scales=2. ** (1 + np.arange(4) / 4), order=o)
    a, b = cwt(x, nan_checks=False, **kw)[0], cwt(x, nan_checks=True, **kw)[0]
    ensure(np.isnan(a).all(), 'nan_checks=False ignored', order=o)
    ensure(np.isfinite(b).all(), 'nan_checks=True ignored', order=o)


SEQ = """
import numpy as np, numba
from ssqueezepy import algos
from ssqueezepy._ssq_cwt import phase_cwt
from ssqueezepy._ssq_stft import phase_stft
from ssqueezepy.utils import buffer
rng = np.random.default_rng(0)
W, D = rng.standard_normal((2, 6, 40)) + 1j * rng.standard_normal((2, 6, 40))
v = 1 + np.arange(6.)
w = np.abs(W)
calls = dict(phase_cwt=lambda p: phase_cwt(W, D, gamma=.1, parallel=p),
             phase_stft=lambda p: phase_stft(W, D, v, gamma=.1, parallel=p),
             indexed_sum=lambda p: algos.indexed_sum(W, np.zeros(W.shape, int), parallel=p),
             indexed_sum_onfly=lambda p: algos.indexed_sum_onfly(W, w, v, 1., parallel=p),
             ssqueeze_fast=lambda p: algos.ssqueeze_fast(W, D, v, 1., gamma=.1, parallel=p),
             replace_under_abs=lambda p: algos.replace_under_abs(w.copy(), W, .1, 0., parallel=p),
             zero_denormals=lambda p: algos.zero_denormals(w.copy(), parallel=p),
             buffer=lambda p: buffer(w[0], 5, 2, parallel=p))
for name, f in calls.items():
    f(False)
    try:
        print('PAR', name, numba.threading_layer())
        break
    except ValueError:                # threads were never started
        print('SEQ', name)
"""


@case(quick=1)
def asked_for_sequential(rng, k):
    """parallel=False starts no threads"""
    import subprocess
    import sys
    e = {a: b for a, b in os.environ.items() if a != 'SSQ_PARALLEL'}
    r = subprocess.run([sys.executable, '-c', SEQ], env=e, capture_output=True, text=True, timeout=200)
    out = r.stdout.splitlines()
    par = [l for l in out if l.startswith('PAR')]
    if not out:
        raise Skip()
    ensure(not par, 'parallel=False ran in parallel', function=par and par[0].split()[1])

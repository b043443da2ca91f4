import os, shutil, tempfile
import numpy as np
from .base import case, ensure, close, same, Skip
from ssqueezepy.utils import fft_utils as F

R = {'fft': np.fft.fft, 'ifft': np.fft.ifft, 'rfft': np.fft.rfft, 'irfft': np.fft.irfft}
pyfftw = getattr(F, 'pyfftw', None)


def draw(rng, name, nd=None, dt=None, shape=None):
    nd = nd or int(rng.integers(1, 3))
    shape = shape or tuple(int(v) for v in rng.integers(2, 14, nd))
    dt = dt or ['float64', 'float32'][int(rng.integers(0, 2))]
    x = rng.standard_normal(shape)
    if name == 'irfft' or (name != 'rfft' and rng.random() < .7):
        x = x + 1j * rng.standard_normal(shape)
        dt = dt.replace('float64', 'complex128').replace('float32', 'complex64')
    return x.astype(dt)


def direct(name, x, axis, n=None):
    """the transform by its definition"""
    y = np.moveaxis(np.asarray(x).astype(complex), axis, -1)
    N = y.shape[-1]
    if name == 'irfft':
        n = 2 * (N - 1) if n is None else n
        full = np.zeros(y.shape[:-1] + (n,), complex)
        for k in range(n // 2 + 1):
            v = y[..., k]
            if k == 0 or 2 * k == n:
                full[..., k] = v.real
            else:
                full[..., k], full[..., n - k] = v, v.conj()
        y, N = full, n
    a = np.arange(N)
    sg = -1 if name in ('fft', 'rfft') else 1
    E = np.exp(sg * 2j * np.pi * (np.outer(a, a) % N) / N)
    z = y @ E
    if sg == 1:
        z = z / N
    if name == 'rfft':
        z = z[..., :N // 2 + 1]
    if name == 'irfft':
        z = z.real
    return np.moveaxis(z, -1, axis)


def check(obj, name, x, axis, i, **kw):
    x0 = x.copy()
    got = getattr(obj, name)(x, axis=axis, **kw)
    same(x, x0, name + ' modified its input', **i)
    want = direct(name, x, axis, kw.get('n'))
    single = x.dtype in (np.float32, np.complex64)
    close(got, want, 2e-5 if single else 1e-11, name, scale=max(np.abs(want).max(), np.abs(x).max(), 1e-3), **i)
    if single:
        ensure(got.dtype in (np.float32, np.complex64), name + ' precision', got=got.dtype, **i)
    ensure((got.dtype.kind == 'f') == (name == 'irfft'), name + ' kind', got=got.dtype, **i)
    return got


@case(quick=300)
def default_backend(rng, k):
    name = list(R)[k % 4]
    nd = 1 + k // 4 % 2
    x = draw(rng, name, nd)
    axis = [-1, 0, 1][k % 3] if nd == 2 else [-1, 0][k % 2]
    i = dict(name=name, x=x, axis=axis)
    kw = {}
    if name == 'irfft' and k % 3:
        kw = dict(n=2 * (x.shape[axis] - 1) + int(rng.integers(0, 2)))
        if kw['n'] < 1:
            raise Skip()
    got = check(F.FFT_GLOBAL, name, x, axis, dict(i, **kw), **kw)
    fn = getattr(F, name)
    same(fn(x, axis=axis, **kw), got, 'module-level function', **i)
    if axis == -1:
        same(fn(x, **kw), got, 'default axis', **i)


@case(quick=100)
def round_trips(rng, k):
    x = draw(rng, 'fft', shape=(int(rng.integers(1, 9)), int(rng.integers(2, 40))))
    ax = k % 2
    t = 1e-5 if x.dtype in (np.float32, np.complex64) else 1e-12
    close(F.ifft(F.fft(x, axis=ax), axis=ax), x, t, 'ifft(fft)', x=x)
    close(F.fft(F.ifft(x, axis=ax), axis=ax), x, t, 'fft(ifft)', x=x)
    r = np.ascontiguousarray(x.real)
    if r.shape[ax] > 1:
        close(F.irfft(F.rfft(r, axis=ax), axis=ax, n=r.shape[ax]), r, t, 'irfft(rfft)', x=r)
        if r.shape[ax] % 2 == 0:
            close(F.irfft(F.rfft(r, axis=ax), axis=ax), r, t, 'irfft(rfft), default length', x=r)
    same(F.fftshift(x, axes=ax), np.roll(x, x.shape[ax] // 2, ax), 'fftshift', x=x)
    same(F.ifftshift(x, axes=ax), np.roll(x, -(x.shape[ax] // 2), ax), 'ifftshift', x=x)
    same(F.fftshift(x), np.roll(x, x.shape[-1] // 2, -1), 'fftshift, default axis', x=x)


@case(quick=24, budget=25)
def planned(rng, k):
    """histories of calls through one wrapper with every backend setting; earlier results stay"""
    if pyfftw is None:
        raise Skip()
    d = tempfile.mkdtemp()
    try:
        obj = F.FFT(wisdom_dir=d, verbose=0, cache_fft_objects=bool(k % 2), threads=1 + k % 3,
                    patience=[0, 1, (1, .1)][k % 3], planning_timelimit=.1)
        # few shapes, so that plans are found again
        shapes = [(6,), (5,), (4, 6), (4, 5), (6, 4)]
        hist = []
        for j in range(14):
            name = list(R)[int(rng.integers(0, 4))]
            shape = shapes[int(rng.integers(0, 5))]
            axis = int(rng.choice([0, -1] if len(shape) == 1 else [0, 1, -1]))
            x = draw(rng, name, shape=shape)
            if name == 'fft' or name == 'ifft':
                x = x.astype('complex128' if x.dtype.itemsize % 8 == 0 and x.dtype != np.complex64 else 'complex64')
            kw = {}
            if name == 'irfft' and rng.random() < .6:
                kw['n'] = 2 * (x.shape[axis] - 1) + int(rng.integers(0, 2))
            p = [None, 0, 1, (1, .1)][int(rng.integers(0, 4))]
            if p is not None:
                kw['patience'] = p
            i = dict(calls=[h[0] for h in hist], now=(name, shape, axis, str(x.dtype), kw))
            got = check(obj, name, x, axis, i, **kw)
            hist.append(((name, shape, axis, str(x.dtype), kw), got, got.copy()))
            for what, a, b in hist:
                same(a, b, 'earlier result changed', earlier=what, **i)
            if rng.random() < .3:
                got[...] = 7              # results belong to the caller
                hist[-1] = hist[-1][0], got, got.copy()
        for bad in (dict(x=np.arange(5)), dict(x=np.zeros((3, 3)), axis=2)):
            kw = dict(dict(axis=-1, patience=1), **bad)
            try:
                obj.fft(**kw)
            except Exception:
                continue
            ensure(False, 'unsupported input accepted', **bad)
        try:
            obj.rfft(np.zeros(4, complex), patience=1)
        except Exception:
            pass
        else:
            ensure(False, 'complex input of rfft accepted')
    finally:
        shutil.rmtree(d, ignore_errors=True)


@case(quick=20)
def settings(rng, k):
    """the patience setting keeps what was assigned"""
    if pyfftw is None:
        raise Skip()
    d = tempfile.mkdtemp()
    try:
        obj = F.FFT(wisdom_dir=d, verbose=0)
        ensure(obj.patience == 0, 'default', got=obj.patience)
        obj.patience = 1
        ensure(obj.patience == 1, 'assigned', got=obj.patience)
        lim = obj.planning_timelimit
        obj.patience = (2, 5)
        ensure(obj.patience == 2 and obj.planning_timelimit == 5, 'assigned pair', got=(obj.patience, obj.planning_timelimit))
        for bad in (3, -1, '1', None, 1.5):
            try:
                obj.patience = bad
            except Exception:
                ensure(obj.patience == 2 and obj.planning_timelimit == 5, 'failed assignment left a trace', got=obj.patience)
                continue
            ensure(False, 'bad patience accepted', patience=bad)
    finally:
        shutil.rmtree(d, ignore_errors=True)

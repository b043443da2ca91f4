"""input generators shared by the runtime contracts"""
import numpy as np


def signal(rng, n, kind=None):
    kind = kind if kind is not None else rng.integers(0, 5)
    t = np.arange(n)
    if kind == 0:
        x = rng.standard_normal(n)
    elif kind == 1:
        x = np.cos(2 * np.pi * rng.uniform(.02, .45) * t + rng.uniform(0, 6))
    elif kind == 2:
        x = np.cos(2 * np.pi * (.02 * t + .2 * t**2 / max(n, 1)))
    elif kind == 3:
        x = np.zeros(n)
        x[rng.integers(0, n)] = 1.
    else:
        x = rng.standard_normal(n) + rng.uniform(-5, 5)
    return x


def cplx(rng, *shape, zeros=True):
    a = rng.standard_normal(shape) + 1j * rng.standard_normal(shape)
    if zeros:
        a[rng.random(shape) < .15] = 0
        a[rng.random(shape) < .1] *= 1e-9
    return a

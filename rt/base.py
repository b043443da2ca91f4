"""Runtime evaluation of the contracts on concrete inputs (bounded stand-in and
source of concrete counterexamples).  Runs in the repository's own interpreter."""
import os, sys, json, time, traceback, warnings
import numpy as np

warnings.simplefilter('ignore')
CASES = []


class Violation(Exception):
    def __init__(self, what, inputs):
        super().__init__(what)
        self.what, self.inputs = what, inputs


class Skip(Exception):
    """the precondition does not hold for this draw"""


def case(name=None, quick=20, thorough=None, budget=20.):
    """register fn(rng, k): evaluates one contract on the k-th generated input"""
    def deco(fn):
        CASES.append((name or fn.__name__, fn, quick, thorough or 8 * quick, budget))
        return fn
    return deco


def show(v):
    if isinstance(v, np.ndarray):
        if v.size <= 64:
            return dict(array=repr(v.tolist()), dtype=str(v.dtype), shape=list(v.shape))
        return dict(array='seeded; head ' + repr(v.ravel()[:8].tolist()),
                    dtype=str(v.dtype), shape=list(v.shape))
    if isinstance(v, dict):
        return {str(k): show(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [show(x) for x in v][:32]
    return repr(v)[:300]


def ensure(cond, what, /, **inputs):
    if not bool(np.all(cond)):
        raise Violation(what, inputs)


def close(a, b, /, tol=1e-10, what='values differ', scale=None, **inputs):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation('%s: shapes %s and %s' % (what, a.shape, b.shape), inputs)
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb) or not np.array_equal(a[~fa], b[~fb], equal_nan=True):
        raise Violation('%s: non-finite entries differ' % what, inputs)
    if a.size == 0 or not fa.any():
        return
    if scale is None:
        scale = max(np.abs(b[fb]).max(), 1e-300)
    err = np.abs(a[fa] - b[fb]).max()
    if not err <= tol * scale:
        raise Violation('%s: max error %.3g (tolerance %.3g)' % (what, err, tol * scale),
                        inputs)


def same(a, b, /, what='values differ', **inputs):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'):
        raise Violation('%s: not identical (shapes %s, %s)' % (what, a.shape, b.shape),
                        inputs)


def run(prop, tier='quick', seed=1, only=None, index=None, total=None):
    t0 = time.time()
    out = dict(evaluations=0, skipped=0, cases={}, failures=[], samples=[])
    total = total or (75. if tier == 'quick' else 500.)
    left = [c for c in CASES if c[1].__module__ == 'rt.' + prop and (only is None or c[0] == only)]
    for name, fn, nq, nt, budget in left:
        n = nq if tier == 'quick' else nt
        budget = budget if tier == 'quick' else 6 * budget
        tc, done, sk = time.time(), 0, 0
        for k in (range(n) if index is None else [index]):
            if k and (time.time() - tc > budget or time.time() - t0 > total):
                break
            rng = np.random.default_rng([seed, k, sum(map(ord, name))])
            try:
                fn(rng, k)
            except Skip:
                sk += 1
                continue
            except Violation as e:
                out['failures'].append(dict(case=name, index=k, seed=seed, what=e.what,
                                            inputs={a: show(b) for a, b in e.inputs.items()}))
                break
            except Exception:
                out['failures'].append(dict(
                    case=name, index=k, seed=seed,
                    what='exception: ' + traceback.format_exc()[-1500:], inputs={}))
                break
            done += 1
        out['cases'][name] = done
        out['evaluations'] += done
        out['skipped'] += sk
        if done:
            out['samples'].append('%s: draws 0..%d of seed %d' % (name, done + sk - 1, seed))
    out['wall_s'] = round(time.time() - t0, 2)
    return out

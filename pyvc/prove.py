"""python -m pyvc.prove PROP TIER OUT.json"""
import sys, os, json, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import run as R
from specs.assumptions import ASSUMPTIONS

GENERAL = [
    'floating-point arithmetic is treated as exact real arithmetic with +-inf/nan flags; '
    'rounding, overflow and denormals are outside the proof',
    'array dimensions are below 2**31 and machine integers do not wrap',
    'numba-compiled code means what its Python source means',
    'numpy / scipy / standard library functions satisfy the contracts in pyvc/npmodel.py',
    'log2/exp/pow/cos/sin/abs(complex) are uninterpreted functions with the monotonicity '
    'and sign facts listed in pyvc/prover.py',
]
TRUSTED = ['pyvc (verification-condition generator: pyvc/*.py)', 'z3', 'CPython ast parser',
           'library contracts in pyvc/npmodel.py']


def main():
    prop, tier, out = sys.argv[1:4]
    mod = importlib.import_module('specs.' + prop)
    q = tier == 'quick'
    res = R.run_spec('specs.' + prop, jobs=8, timeout_ms=8000 if q else 30000,
                     budget_s=200 if q else 1200, hard_s=300 if q else 1800)
    targets = {t for r in res for t in r['targets'] if not t.startswith('lemma:')}
    ran = {f for r in res for f in r['calls']}
    missing = sorted(t for t in targets if t not in ran) if not any(r['error'] for r in res) \
        else []
    json.dump(dict(results=[r for r in res if not r.get('gone')],
                   gone=[(r['contract'], r['gone']) for r in res if r.get('gone')], missing=missing, trusted=TRUSTED,
                   assumptions=GENERAL + ASSUMPTIONS.get(prop, [])),
              open(out, 'w'))


main()

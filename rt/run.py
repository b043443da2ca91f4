"""rt/run.py PROP [--tier quick] [--seed 1] [--case NAME --index K] [--out FILE]"""
import os, sys, json, argparse, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default='quick')
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--case')
ap.add_argument('--index', type=int)
ap.add_argument('--out')
a = ap.parse_args()
from rt import base
try:
    importlib.import_module('rt.' + a.prop)
    r = base.run(a.prop, a.tier, a.seed, a.case, a.index)
except BaseException:
    import traceback
    r = dict(evaluations=0, skipped=0, cases={}, samples=[], failures=[dict(
        case='import', index=0, seed=a.seed, inputs={},
        what='exception while loading the code: ' + traceback.format_exc()[-1500:])])
if a.out:
    json.dump(r, open(a.out, 'w'))
else:
    print(json.dumps(r, indent=1))

#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]

1. generate the proof obligations of every contract of PROP from /repo's current
   source and discharge them (pyvc + z3);
2. evaluate the same contracts on concrete inputs against the real code (bounded);
exit 0: all obligations discharged and no evaluation failed; exit 1 + VIOLATION line
otherwise."""
import os, sys, json, time, argparse, subprocess, tempfile, shutil, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/bin/python3'
REPO = os.environ.get('VERIF_REPO', '/repo')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--no-rt', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    t0 = time.time()
    prop = a.prop
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        return decide(prop, tier, seed, tmp, t0, a)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def start_rt(prop, tier, seed, tmp):
    if not os.path.exists(os.path.join(HERE, 'rt', prop + '.py')):
        return None, None
    env = {k: v for k, v in os.environ.items() if not k.startswith(('SSQ_', 'NUMBA_'))}
    env.update(PYTHONPATH=REPO, PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'),
               NUMBA_CACHE_DIR=os.path.join(tmp, 'nc'), MPLBACKEND='Agg', SSQ_GPU='0',
               NUMBA_NUM_THREADS='4', OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='2',
               VERIF_TMP=tmp, HOME=tmp, MPLCONFIGDIR=tmp, PYTHONHASHSEED='0')
    out = os.path.join(tmp, 'rt.json')
    p = subprocess.Popen([VENV, os.path.join(HERE, 'rt', 'run.py'), prop, '--tier', tier,
                          '--seed', str(seed), '--out', out], env=env, cwd=tmp,
                         stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, 'rt.err'), 'w'))
    return p, out


def start_proof(prop, tier, tmp):
    if not os.path.exists(os.path.join(HERE, 'specs', prop + '.py')):
        return None, None
    out = os.path.join(tmp, 'proof.json')
    env = dict(os.environ, PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc2'), VERIF_REPO=REPO,
               PYTHONHASHSEED='0')
    p = subprocess.Popen([VT, '-m', 'pyvc.prove', prop, tier, out], env=env, cwd=HERE,
                         stdout=subprocess.DEVNULL,
                         stderr=open(os.path.join(tmp, 'proof.err'), 'w'))
    return p, out


def collect(p, out, tmp, name, limit):
    if p is None:
        return None
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    try:
        return json.load(open(out))
    except Exception:
        return dict(crash=open(os.path.join(tmp, name + '.err')).read()[-2000:])


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else dict(known=[], fixed=[])


def decide(prop, tier, seed, tmp, t0, a):
    lim = 700 if tier == 'quick' else 7200
    pp, po = (None, None) if a.no_proof else start_proof(prop, tier, tmp)
    rp, ro = (None, None) if a.no_rt else start_rt(prop, tier, seed, tmp)
    rt = collect(rp, ro, tmp, 'rt', lim)
    pr = collect(pp, po, tmp, 'proof', max(60, lim - (time.time() - t0)))

    known = [k for k in known_findings()['known'] if k['property'] == prop]
    lines, violations = [], []

    def is_known(f):
        for k in known:
            if k.get('case') == f.get('case') and k.get('match', '\0') in f['what']:
                return k
        return None
    # -- bounded evaluation
    fails = []
    if rt is not None:
        if 'crash' in rt:
            fails.append(dict(case='runner', index=0, seed=seed, inputs={},
                              what='evaluation died: ' + rt['crash']))
        else:
            fails = rt['failures']
    hit = set()
    for f in fails:
        k = is_known(f)
        if k:
            hit.add(k['what'])
        else:
            violations.append(('input', f))
    # -- proof
    obls, errors, res = [], [], []
    if pr is not None:
        if 'crash' in pr:
            errors.append('proof engine died: ' + pr['crash'])
        else:
            res = pr['results']
            for r in res:
                if r['error']:
                    errors.append('%s: %s' % (r['contract'], r['error']))
                elif not r['obligations']:
                    errors.append('%s: generated no obligations' % r['contract'])
                elif not r['covered']:
                    errors.append('%s: precondition is infeasible (vacuous)' % r['contract'])
                obls += [(r['contract'], o) for o in r['obligations']]
            if not res:
                errors.append('no contracts')
    failed = [(c, o) for c, o in obls if o['status'] != 'proved']

    inputs = [v for v in violations if v[0] == 'input']
    nviol = 0
    rdir = os.path.join(HERE, 'evidence', 'replay')
    if inputs or failed or errors:
        os.makedirs(rdir, exist_ok=True)
        rp_ = os.path.join(rdir, prop + '.json')
        doc = dict(property=prop, tier=tier, seed=seed,
                   failing_inputs=[v[1] for v in inputs],
                   failed_obligations=[dict(contract=c, **o) for c, o in failed][:30],
                   undecided=errors[:20],
                   replay=['env PYTHONPATH=%s SSQ_GPU=0 %s %s/rt/run.py %s --seed %d --case %s '
                           '--index %d' % (REPO, VENV, HERE, prop, f['seed'], f['case'], f['index'])
                           for _, f in inputs])
        json.dump(doc, open(rp_, 'w'), indent=1)
        nviol = len(inputs) or 1
        for _, f in inputs:
            print('failing input: case %s draw %d: %s' % (f['case'], f['index'],
                                                         f['what'].strip().splitlines()[-1][:200]))
        for c, o in failed[:10]:
            print('obligation not discharged: %s: %s (%s %s) %s' % (
                c, o['name'], o['func'], o['where'], o['status']))
        for e in errors[:10]:
            print('undecided: %s' % e[:300])
        print('VIOLATION property=%s replay=%s%s' % (
            prop, rp_, '' if inputs else ' no-failing-input-found'))
    for k in known:
        # reported on every run while the entry is in the file
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    meta = json.load(open(os.path.join(HERE, 'levels.json'))).get(prop, {})
    level = meta.get('level', 'proof')
    cov = {}
    if pr is not None and 'crash' not in pr:
        be = {}
        for r in res:
            for k, v in r['backends'].items():
                be[k] = be.get(k, 0) + v
        cov.update(obligations=len(obls), discharged=len(obls) - len(failed),
                   checker_cmd='cd /verif && python3 check.py %s --tier %s' % (prop, tier),
                   trusted_base=pr.get('trusted', []),
                   contracts=[dict(contract=r['contract'], targets=r['targets'],
                                   obligations=len(r['obligations']), paths=r['paths'],
                                   feasible_paths=r['covered'], wall_s=r['s']) for r in res],
                   not_executed=pr.get('missing', []), contracts_without_function=pr.get('gone', []),
                   functions_executed=sorted({f for r in res for f in r['calls']}),
                   functions_under_contract=sorted({t for r in res for t in r['targets']}),
                   backends=be, solver_queries=sum(r['queries'] for r in res),
                   solver_s=round(sum(r['solver_s'] for r in res), 2))
    if rt is not None and 'crash' not in rt:
        cov['bounded_runtime_contracts'] = dict(
            evaluations=rt['evaluations'], skipped=rt['skipped'], per_case=rt['cases'],
            label='bounded, not counted as proved')
        cov.update(evaluations=rt['evaluations'],
                   distinct_nontrivial=rt['evaluations'],
                   rule='seeded draws per case (case name, draw index, seed); draws outside '
                        'the precondition are skipped and not counted',
                   samples=rt['samples'][:20])
    if level == 'other' or 'explanation' in meta:
        cov['explanation'] = meta.get('explanation', '')
    cov = cov or dict(explanation='nothing ran')
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=(pr or {}).get('assumptions', []) if pr and 'crash' not in pr else [],
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    if nviol:
        return 1
    print('%s holds: %d obligations discharged, %d contract evaluations (%.1f s)' % (
        prop, cov.get('discharged', 0), cov.get('evaluations', 0), time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.exit(rc)

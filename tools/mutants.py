#!/usr/bin/env python3
"""tools/mutants.py [PROP ...]: apply each change below to a scratch copy of the package and run the
property's check on it; prints which part of the check notices it.  Not run by any check."""
import os, sys, json, shutil, subprocess, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
M = []


def m(prop, file, old, new, n=1):
    M.append((prop, file, old, new, n))


exec(open(os.path.join(H, 'tools', 'mutants.txt')).read())


def apply(text, old, new, n):
    """replace the n-th occurrence (0: all)"""
    if n == 0:
        return text.replace(old, new) if old in text else None
    parts = text.split(old)
    if len(parts) <= n:
        return None
    return old.join(parts[:n]) + new + old.join(parts[n:])


def one(k):
    prop, file, old, new, n = M[k]
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        shutil.copytree(REPO + '/ssqueezepy', d + '/ssqueezepy', ignore=shutil.ignore_patterns('__pycache__'))
        v = d + '/verif'
        os.mkdir(v)
        for f in ('check.py', 'pyvc', 'specs', 'rt', 'levels.json', 'known_findings.json'):
            (shutil.copytree if os.path.isdir(H + '/' + f) else shutil.copy)(H + '/' + f, v + '/' + f)
        p = d + '/ssqueezepy/' + file
        t = apply(open(p).read(), old, new, n)
        if t is None:
            return 'NOT FOUND'
        open(p, 'w').write(t)
        out = ''
        for a in ('--no-rt', '--no-proof'):
            r = subprocess.run(['nice', sys.executable, v + '/check.py', prop, a], cwd=v, text=True,
                               capture_output=True, env=dict(os.environ, VERIF_REPO=d), timeout=1500)
            ls = r.stdout.splitlines()
            why = [l for l in ls if l.startswith(('failing', 'obligation', 'undecided'))][:1]
            out += '%s %s ' % ('proof' if a == '--no-rt' else 'rt', ('caught' if r.returncode == 1 else 'MISSED'))
            out += '(%s) ' % (why[0][:110] if why else '')
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    for k, x in enumerate(M):
        if len(sys.argv) > 1 and x[0] not in sys.argv[1:] and str(k) not in sys.argv[1:]:
            continue
        print('%d %s %s: %s -> %s :: %s' % (k, x[0], x[1], ' '.join(x[2].split())[:60], ' '.join(x[3].split())[:60], one(k)), flush=True)

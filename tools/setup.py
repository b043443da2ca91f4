#!/usr/bin/env python3
"""nothing to build: check that the tools the checks use are present"""
import os, subprocess, sys
vt = '/opt/veriftools/pyvenv/bin/python3'
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = subprocess.run([vt, '-c', 'import z3, pyvc.run; print(z3.get_version_string())'], cwd=here)
ok = r.returncode == 0 and os.path.exists('/opt/venv/bin/python')
sys.exit(0 if ok else 1)

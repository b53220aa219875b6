"""seed.py SPEC.py [names]: write /verif/seeded/<name> from SPEC's S = {name: dict(prop, edits=[(file, old, new)], demo, needs, what)}

Each edit is made in a scratch copy of /repo; the demo must pass on /repo and fail on the copy."""
import json, os, shutil, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
S = ns['S']
PRE = '''import sympy
from sympy import I, Symbol, symbols, sqrt, exp, pi, Rational
from qnet import *

def check(ok, what):
    if not ok:
        raise SystemExit('FAILED: ' + what)

'''
SH = '''#!/bin/bash
# demonstration; run with cwd /repo
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" MPLBACKEND=Agg
exec timeout 250 /opt/venv/bin/python -W ignore "$D/demo.py"
'''
for n in sys.argv[2:] or S:
    s = S[n]
    out = '/verif/seeded/' + n
    os.makedirs(out, exist_ok=True)
    d = '/tmp/seedcopy/' + n
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/seedcopy', exist_ok=True)
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    for f, old, new in s['edits']:
        p = d + '/src/qnet/' + f
        t = open(p).read()
        if t.count(old) != 1:
            sys.exit('%s: %d matches in %s' % (n, t.count(old), f))
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True, check=True).stdout
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.py', 'w').write(PRE + s['demo'].strip() + "\nprint('ok')\n")
    open(out + '/demo.sh', 'w').write(SH)
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(out + '/meta.json', 'w'), indent=1)
    a = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    b = subprocess.run(['bash', out + '/demo.sh'], cwd=d, capture_output=True, text=True)
    print(n, 'clean', a.returncode, (a.stdout + a.stderr)[-300:].strip() if a.returncode else '', '| patched', b.returncode, (b.stdout + b.stderr).strip()[-150:])
    shutil.rmtree(d, ignore_errors=True)

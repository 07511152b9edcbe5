#!/usr/bin/env python3
"""plant.py SPEC.py: make and confirm planted bugs.

SPEC.py defines PLANTS = [dict(id, property, file, edits=[(old, new)...] (or
edits=[(file, old, new)]), needs, breaks, demo=python source)].  Each is tried in
a scratch worktree of /repo: the patch must apply, the stable tests must still
pass, the demo must exit 0 without and nonzero with the patch.
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))

def names(d):
    for k in ('passed', 'pass', 'stable', 'tests'):
        if k in d:
            x = d[k]
            return set(x if isinstance(x, list) else x.keys())

DEMO_SH = '''#!/bin/bash
# run with cwd = the root of the fibertree tree
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONHASHSEED=0 MPLBACKEND=Agg
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export MPLCONFIGDIR="$T" SCRATCH="$T"
exec 3< "$(dirname "$0")/demo.py"
"$PY" - <&3
'''

def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    only = set(sys.argv[2:])
    for p in ns['PLANTS']:
        if only and p['id'] not in only:
            continue
        one(p)

def one(p):
    wt = tempfile.mkdtemp(prefix='plant_')
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', '-f', wt, 'HEAD'], check=True)
    try:
        d = os.path.join(ROOT, 'seeded', p['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(p['demo'].lstrip())
        json.dump(dict(property=p['property'], needs=p['needs'], what_it_breaks=p['breaks']),
                  open(d + '/meta.json', 'w'), indent=1)
        r0 = subprocess.run(['bash', d + '/demo.sh'], cwd=wt, capture_output=True, text=True, timeout=300)
        for e in p['edits']:
            f, old, new = e if len(e) == 3 else (p['file'], *e)
            f = os.path.join(wt, f)
            s = open(f).read()
            if s.count(old) != 1:
                print(p['id'], 'EDIT MATCHES', s.count(old), repr(old[:80])); return
            open(f, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        base = subprocess.run(['git', '-C', '/repo', 'show', 'e8f559b:' + p['file']],
                              capture_output=True, text=True).stdout.split('\n')
        mine = [l for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')
                and l[1:].strip() and l[1:] not in base]
        if mine:
            print(p['id'], 'NOTE: changes lines of a fix commit:', mine)
        r1 = subprocess.run(['bash', d + '/demo.sh'], cwd=wt, capture_output=True, text=True, timeout=300)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/opt/vp/no-pycache',
                   PYTHONPATH=wt, PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/tmp/mplc')
        subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--rootdir=' + wt,
                        '--timeout=300', '--continue-on-collection-errors', '-o', 'junit_family=xunit2',
                        '--junitxml=' + wt + '/rep.xml', '.'], cwd=wt + '/test', env=env, capture_output=True)
        subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', wt + '/out.json', 'junit:' + wt + '/rep.xml'],
                       capture_output=True)
        miss = names(BASE) - names(json.load(open(wt + '/out.json')))
        ok = r0.returncode == 0 and r1.returncode != 0 and not miss
        print(p['id'], p['property'], 'OK' if ok else 'BAD', 'clean', r0.returncode, 'patched', r1.returncode,
              'tests missing', len(miss), sorted(miss)[:3])
        if r0.returncode: print(r0.stdout[-600:], r0.stderr[-800:])
        elif not ok or '-v' in sys.argv: print(r1.stdout[-300:], r1.stderr[-300:])
        if not ok and '--keep' not in sys.argv:
            shutil.rmtree(d)
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', wt], capture_output=True)
        shutil.rmtree(wt, ignore_errors=True)
        subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])

if __name__ == '__main__':
    main(sys.argv[1])

#!/usr/bin/env python3
"""mkseed.py SPEC.py : builds seeded/<id>/ from a spec and confirms it in a scratch copy.
SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def build(S):
    d = os.path.join(H, 'seeded', S['ID'])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    w = os.path.join(t, 'repo')
    try:
        subprocess.run(['cp', '-a', '/repo', w], check=True)
        subprocess.run(['git', '-C', w, 'checkout', '-q', '--', '.'], check=True)
        open(os.path.join(d, 'demo.py'), 'w').write(S['DEMO'])
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/sh\n# run with cwd /repo\nd=$(cd "$(dirname "$0")" && pwd)\n'
            'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg '
            'exec timeout 250 /opt/venv/bin/python "$d/demo.py"\n')
        json.dump(dict(property=S['PROP'], needs=S['NEEDS'], what_it_breaks=S['BREAKS']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r0 = subprocess.run(['sh', os.path.join(d, 'demo.sh')], cwd=w, capture_output=True, text=True)
        for f, old, new in S['EDITS']:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (S['ID'], f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        r1 = subprocess.run(['sh', os.path.join(d, 'demo.sh')], cwd=w, capture_output=True, text=True)
        tests = subprocess.run(['bash', '/tmp/runtests_at.sh', w], capture_output=True, text=True).stdout
        # changed lines must be lines of the base commit
        base = []
        for f, old, new in S['EDITS']:
            b = subprocess.run(['git', '-C', w, 'show', '403d61b:' + f], capture_output=True, text=True).stdout.splitlines()
            bs = {l.strip() for l in b}
            rem = [l[1:].strip() for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
            base += [l for l in rem if l and l not in bs]
        ok = r0.returncode == 0 and r1.returncode != 0 and 'FAILED STABLE: []' in tests
        print(S['ID'], S['PROP'], 'OK' if ok else 'BAD', 'clean', r0.returncode, 'patched', r1.returncode,
              tests.strip()[-150:], 'NOT IN BASE: %s' % base if base else '')
        if not ok:
            print(r0.stdout[-500:], r0.stderr[-800:], '---', r1.stdout[-300:], r1.stderr[-300:])
    finally:
        shutil.rmtree(t)

for a in sys.argv[1:]:
    build(runpy.run_path(a))

#!/usr/bin/env python3
'''
plant.py SPEC.py - make /verif/seeded/<id>/ from a spec and confirm it.

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO = python text (uses lib.py).
The change is applied to /repo only while it is being confirmed.
'''
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BASE = subprocess.run(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def demo(d):
    t = tempfile.mkdtemp()
    for f in os.listdir(d):
        if not f.endswith(('.diff', '.json')):
            shutil.copy(os.path.join(d, f), t)
    r = sh('bash', os.path.join(t, 'demo.sh'), cwd=REPO, timeout=300)
    shutil.rmtree(t)
    return r


def tests():
    if sh('bash', '/opt/vp/build.sh').returncode:
        return 'build failed'
    out = tempfile.mktemp()
    sh('bash', '/opt/vp/test.sh', out)
    o = json.load(open(out))
    b = json.load(open('/opt/vp/BASELINE.json'))
    get = lambda x: set(x['passed']) if 'passed' in x else set(x.get('stable', x.get('tests', [])))
    missing = get(b) - get(o)
    return f'tests fail: {sorted(missing)[:5]}' if missing else ''


def main(spec):
    ns = {}
    exec(compile(open(spec).read(), spec, 'exec'), ns)
    assert not sh('git', '-C', REPO, 'status', '--porcelain').stdout, 'dirty repo'
    d = os.path.join(VERIF, 'seeded', ns['ID'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    ok = False
    try:
        for f, old, new in ns['EDITS']:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
            base = sh('git', '-C', REPO, 'show', f'{BASE}:{f}').stdout.splitlines()
        diff = sh('git', '-C', REPO, 'diff').stdout
        removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        if removed and not any(l in base for l in removed if l.strip()):
            print('NOTE: no removed line is original', removed)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(ns['DEMO'])
        shutil.copy(os.path.join(VERIF, 'tools', 'demolib.py'), os.path.join(d, 'lib.py'))
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        t = tests()
        r = demo(d)
        sh('git', '-C', REPO, 'checkout', '--', '.')
        sh('bash', '/opt/vp/build.sh')
        c = demo(d)
        ok = not t and r.returncode != 0 and c.returncode == 0
        print(ns['ID'], 'OK' if ok else 'BAD', t, 'patched', r.returncode, 'clean', c.returncode)
        if not ok or '-v' in sys.argv:
            print(r.stdout[-600:], r.stderr[-600:], '--- clean', c.stdout[-600:], c.stderr[-1200:])
    finally:
        sh('git', '-C', REPO, 'checkout', '--', '.')
        if not ok:
            shutil.rmtree(d, ignore_errors=True)
    return ok


if __name__ == '__main__':
    for s in sys.argv[1:]:
        if not s.startswith('-'):
            main(s)

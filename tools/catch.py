#!/usr/bin/env python3
'''
catch.py [ID ...] [--all-checks] - run checks against planted bugs, in a scratch copy of /repo (VERIF_REPO), print who catches what.
Default: the check of the bug's own property.
'''
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
checks = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']
for i in ids:
    d = os.path.join(VERIF, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    t = tempfile.mkdtemp(prefix='catch-')
    os.chmod(t, 0o755)
    v = os.path.join(t, 'verif')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', os.path.join(t, 'repo')], check=True)
        subprocess.run(['git', '-C', os.path.join(t, 'repo'), 'apply', os.path.join(d, 'patch.diff')], check=True)
        shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
        for c in checks:
            if c['property'] != prop and '--all-checks' not in sys.argv:
                continue
            t0 = time.time()
            r = subprocess.run(c['quick_cmd'], shell=True, cwd=v, env=dict(os.environ, VERIF_REPO=os.path.join(t, 'repo'), VERIF_TIER='quick', VERIF_SEED=os.environ.get('VERIF_SEED', '1')), capture_output=True, text=True, errors='replace')
            what = [l for l in r.stdout.splitlines() if 'violated' in l][:1]
            print(f'{i:28} {c["property"]} rc={r.returncode} {time.time() - t0:5.1f}s', what[0].strip() if what else r.stderr[-300:], flush=True)
            if '-v' in sys.argv:
                print(r.stdout[-3000:])
    finally:
        shutil.rmtree(t, ignore_errors=True)

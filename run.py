#!/usr/bin/env python3
'''
run.py PROPERTY [--replay FILE] - decide one property on the current tree of /repo.
'''
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python'


def bootstrap():
    '''re-exec with a controlled interpreter and environment'''
    if os.environ.get('VERIF_BOOTED') == sys.argv[1]:
        return
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(('PYTHON', 'LC_', 'LD_')) or k in ('LANG', 'LANGUAGE', 'TZ', 'BEAD_ZIP_COMPRESSION', 'TRACELOG', 'COLUMNS'):
            del env[k]
    env.update(
        VERIF_BOOTED=sys.argv[1], PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
        PYTHONPYCACHEPREFIX='/nonexistent-pycache', LC_ALL='C.UTF-8', TZ='UTC',
        PYTHONPATH=os.pathsep.join([os.environ.get('VERIF_REPO', '/repo'), VERIF]))
    sys.path.insert(0, VERIF)
    from harness import runner
    import importlib.util
    text = open(os.path.join(VERIF, 'checks', sys.argv[1].lower() + '.py')).read()
    if 'NEEDS_SHIM = True' in text:
        env['LD_PRELOAD'] = runner.build_shim()
    py = PYTHON if os.path.exists(PYTHON) else sys.executable
    os.execve(py, [py, '-u', os.path.join(VERIF, 'run.py')] + sys.argv[1:], env)


if __name__ == '__main__':
    bootstrap()
    import importlib
    from harness import runner
    module = importlib.import_module('checks.' + sys.argv[1].lower())
    sys.exit(runner.main(module))

'''Helpers of the demonstrations: a scratch world, commands in fresh processes.'''
import atexit
import os
import shutil
import stat
import subprocess
import sys
import tempfile
import zipfile

REPO = os.getcwd()
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'
TMP = tempfile.mkdtemp(prefix='demo-')


def _cleanup():
    os.chdir('/')
    for root, dirs, _files in os.walk(TMP):
        os.chmod(root, 0o700)
    shutil.rmtree(TMP, ignore_errors=True)


atexit.register(_cleanup)


def path(*p):
    return os.path.join(TMP, *p)


def mkdir(*p):
    os.makedirs(path(*p), exist_ok=True)
    return path(*p)


def env(**kw):
    e = dict(os.environ, HOME=mkdir('home'), XDG_CONFIG_HOME=path('home', '.config'), PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', PYTHONHASHSEED='0')
    e.update(kw)
    return e


def bead(*argv, cwd=None, check=True, **environment):
    '''run a command in a fresh process'''
    r = subprocess.run([PY, '-c', 'from bead_cli.main import main; main()', *map(str, argv)],
                       cwd=cwd or TMP, env=env(**environment), capture_output=True, text=True)
    if check and r.returncode:
        fail(f'{argv} failed: {r.stdout[-500:]} {r.stderr[-1500:]}')
    return r


def write(p, content='', mode=None):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(content.encode() if isinstance(content, str) else content)


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def box(name='box'):
    bead('box', 'add', name, mkdir(name))
    return path(name)


def zips(d):
    return sorted(f for f in os.listdir(d) if f.endswith('.zip'))


def fail(msg):
    print('BROKEN:', msg)
    sys.exit(1)


def expect(ok, msg):
    if not ok:
        fail(msg)

'''In-process runs of the command line tool, the way a fresh process would behave.'''
import contextlib
import io
import os
import sys
import traceback

import bead.zipopener
from bead_cli.main import run as bead_run


class Result:
    def __init__(self, argv, code, out, err, crash, tb):
        self.argv, self.code, self.out, self.err, self.crash, self.tb = argv, code, out, err, crash, tb

    @property
    def ok(self):
        return self.crash is None and self.code in (0, None)

    @property
    def refused(self):
        '''ended with an error message, not with an internal error'''
        return self.crash is None and self.code not in (0, None)

    @property
    def text(self):
        return self.out + self.err

    def __repr__(self):
        return f'<{self.argv} code={self.code} crash={self.crash} out={self.out[-300:]!r} err={self.err[-300:]!r}>'


def invoke(argv, cwd, home, config=None, env=None, keep_open=False, stdin=None):
    '''run one command; the world sees it as a process of its own'''
    config = config or os.path.join(home, '.config', 'bead')
    old_cwd = os.getcwd()
    saved = {k: os.environ.get(k) for k in ('HOME', 'PWD', *(env or {}))}
    os.environ['HOME'] = os.fspath(home)
    # shells tell the name by which they know the current directory
    os.environ['PWD'] = os.path.abspath(cwd)
    for k, v in (env or {}).items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v
    out, err = io.StringIO(), io.StringIO()
    code, crash, tb = 0, None, None
    try:
        os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                code = bead_run(os.fspath(config), [os.fspath(a) for a in argv])
            except SystemExit as e:
                code = e.code if e.code is not None else 0
            except KeyboardInterrupt as e:
                code, crash, tb = -1, e, traceback.format_exc()
            except Exception as e:
                code, crash, tb = -1, e, traceback.format_exc()
    finally:
        try:
            os.chdir(old_cwd)
        except OSError:
            os.chdir('/')
        for k, v in saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        if not keep_open:
            bead.zipopener.close_all()
    return Result([os.fspath(a) for a in argv], code, out.getvalue(), err.getvalue(), crash, tb)


class User:
    '''a home directory, a registry and a case directory'''

    def __init__(self, w, name='user'):
        self.w = w
        self.root = os.path.join(w.dir, name)
        os.makedirs(self.root, exist_ok=True)
        self.home = os.path.join(self.root, 'home')
        os.makedirs(self.home, exist_ok=True)
        self.config = os.path.join(self.home, '.config', 'bead')

    def path(self, *parts):
        return os.path.join(self.root, *parts)

    def mkdir(self, *parts):
        p = self.path(*parts)
        os.makedirs(p, exist_ok=True)
        return p

    def bead(self, *argv, cwd=None, env=None, keep_open=False):
        r = invoke(argv, cwd or self.root, self.home, self.config, env, keep_open)
        self.w.count('commands')
        self.w.log('bead', list(map(str, r.argv)), r.code, repr(r.crash) if r.crash else None, r.text[-200:])
        return r

    def must(self, *argv, cwd=None, env=None, keep_open=False):
        '''a command that has every reason to succeed'''
        r = self.bead(*argv, cwd=cwd, env=env, keep_open=keep_open)
        if not r.ok:
            self.w.violate(
                'a valid command failed', _stop=True,
                argv=r.argv, cwd=cwd, code=r.code, crash=repr(r.crash), out=r.out[-800:], err=r.err[-800:],
                tb=(r.tb or '')[-2500:])
        return r

    def add_box(self, name, *parts):
        d = self.mkdir(*(parts or (name,)))
        self.must('box', 'add', name, d)
        return d

    @property
    def registry_file(self):
        return os.path.join(self.config, 'env.json')


def zips(d):
    return sorted(n for n in os.listdir(d) if n.endswith('.zip'))

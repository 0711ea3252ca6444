'''
Commands run in forked children with one fault injected at one of their file system calls (see shim/shim.c).
'''
import ctypes
import errno
import json
import os
import select
import signal
import sys
import time
import traceback

from .cli import Result, invoke

OFF, COUNT, KILL, PARTIAL_KILL, FAIL, FAIL_ON, SIGINT, CALLBACK, SHORT_FAIL = range(9)
NAMES = ['off', 'count', 'kill', 'partial write, kill', 'error', 'full disk', 'interrupt', 'callback', 'short write, error']
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ['LD_PRELOAD'])
        _lib.shim_ops.restype = ctypes.c_long
        _lib.shim_fired.restype = ctypes.c_long
        _lib.shim_arm.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_char_p, ctypes.c_int]
        _lib.shim_clock.argtypes = [ctypes.c_int, ctypes.c_longlong, ctypes.c_longlong]
        _lib.shim_delay.argtypes = [ctypes.c_uint, ctypes.c_uint, ctypes.c_char_p]
    return _lib


CALLBACK_TYPE = ctypes.CFUNCTYPE(None, ctypes.c_long)


class Outcome:
    '''what a child reported, or how it ended'''

    def __init__(self, status, data):
        self.signal = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
        self.data = data or {}
        self.result = None
        if data and 'code' in data:
            self.result = Result(data['argv'], data['code'], data['out'], data['err'], data['crash'], data['tb'])
        self.ops = self.data.get('ops')
        self.fired = self.data.get('fired', 0)
        self.log = self.data.get('log')

    @property
    def killed(self):
        return self.signal == signal.SIGKILL

    @property
    def ok(self):
        return self.result is not None and self.result.ok

    def __repr__(self):
        return f'<Outcome signal={self.signal} fired={self.fired} {self.result!r} {(self.result.tb or "")[-700:] if self.result else self.data}>'


def in_child(fn, timeout=60):
    '''fn() in a forked child; its JSON-able result'''
    r, wfd = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            data = json.dumps(fn(wfd), default=repr).encode()
            while data:
                data = data[os.write(wfd, data):]
            code = 0
        except BaseException:
            traceback.print_exc(file=sys.__stderr__)
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    end = time.time() + timeout
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                raise TimeoutError('child did not finish')
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    finally:
        os.close(r)
    _, status = os.waitpid(pid, 0)
    data = b''.join(chunks)
    try:
        data = json.loads(data) if data else None
    except ValueError:
        data = None
    return Outcome(status, data)


def command(user, argv, cwd=None, scope=None, mode=COUNT, n=0, err=errno.EIO, reads=False, log=False, callback=None, clock=None, env=None):
    '''run a bead command in a child with the nth file system call below scope made to fail'''
    scope = os.path.realpath(scope or user.w.dir)

    def run(wfd):
        L = lib()
        logfd = None
        if log:
            logfd = os.open(os.path.join(user.w.base, 'shim.log'), os.O_CREAT | os.O_TRUNC | os.O_RDWR | os.O_APPEND)
            L.shim_log(logfd)
        if callback:
            cb = CALLBACK_TYPE(callback)
            L.shim_callback(cb)
        if clock is not None:
            L.shim_clock(1, clock, 0)
        L.shim_arm(mode, n, err, os.fsencode(scope), int(reads))
        try:
            r = invoke(argv, cwd or user.root, user.home, user.config, env)
        finally:
            L.shim_disarm()
            L.shim_clock(0, 0, 0)
        d = dict(argv=[str(a) for a in r.argv], code=r.code, out=r.out, err=r.err, crash=repr(r.crash) if r.crash is not None else None, tb=r.tb,
                 ops=L.shim_ops(), fired=L.shim_fired())
        if log:
            os.lseek(logfd, 0, 0)
            d['log'] = [l for l in os.read(logfd, 1 << 20).decode('utf-8', 'replace').splitlines()]
        return d
    user.w.count('commands')
    out = in_child(run)
    user.w.log('command', [str(a) for a in argv], NAMES[mode], n, repr(out)[:300])
    return out


def clone(src, dst):
    '''exact copy of a tree (permissions, links, times)'''
    import shutil
    import stat
    os.makedirs(dst, exist_ok=True)
    fix = []
    for n in os.listdir(src):
        s, d = os.path.join(src, n), os.path.join(dst, n)
        st = os.lstat(s)
        if stat.S_ISLNK(st.st_mode):
            os.symlink(os.readlink(s), d)
        elif stat.S_ISDIR(st.st_mode):
            clone(s, d)
        else:
            shutil.copyfile(s, d)
            os.chmod(d, stat.S_IMODE(st.st_mode))
            os.utime(d, ns=(st.st_atime_ns, st.st_mtime_ns))
    os.chmod(dst, stat.S_IMODE(os.lstat(src).st_mode))


def choose(rng, n, limit):
    '''crash points: all of them, or the first and last ones and a sample'''
    if n <= limit:
        return list(range(1, n + 1))
    edge = limit // 3
    middle = rng.sample(range(edge + 1, n - edge + 1), limit - 2 * edge)
    return sorted({*range(1, edge + 1), *middle, *range(n - edge + 1, n + 1)})

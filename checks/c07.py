import errno
import os
import resource
import stat

from harness import audit, gen
from harness.session import Session
from harness.world import ws_inputs, is_valid_ws

PROPERTY = 'C07'
LEVEL = 'exploration'
RULE = ('one case = one random history of input commands (some of them failing by themselves, by an injected I/O error, by a full disk or by '
        'an interrupt) under a random umask; after every command the owner really tries to change every path of the input area and of his own areas; '
        'non-trivial = distinct (command, outcome, fault, shape of the loaded data) tuples')
REQUIRED = {'input_commands': 1000, 'attempts': 20000, 'faults': 100, 'own_attempts': 3000, 'removals': 150, '#state': 400}


def plan(tier, rng):
    n = 200 if tier == 'quick' else 2500
    return [dict(steps=22 if tier == 'quick' else 45, umask=[0o022, 0o002, 0o077, 0o000, 0o027][i % 5], faults=i % 3 != 0) for i in range(n)]


def attempts(w, path):
    '''what the owner could do to path (and what is directly in it)'''
    st = os.lstat(path)
    done = []
    if not w.unprivileged:
        # permissions do not stop root
        w.count('attempts')
        return ['mode'] if st.st_mode & stat.S_IWUSR else []
    if stat.S_ISDIR(st.st_mode):
        w.count('attempts', 2)
        probe = os.path.join(path, 'probe-by-monitor')
        try:
            os.close(os.open(probe, os.O_CREAT | os.O_EXCL | os.O_WRONLY))
            done.append('create')
            os.unlink(probe)
        except PermissionError:
            pass
        try:
            os.mkdir(probe)
            done.append('mkdir')
            os.rmdir(probe)
        except PermissionError:
            pass
    else:
        w.count('attempts')
        try:
            os.close(os.open(path, os.O_WRONLY))
            done.append('write')
        except PermissionError:
            pass
    # rename (and with it removal) of the path itself
    w.count('attempts')
    try:
        os.rename(path, path + '.moved')
        done.append('rename')
        os.rename(path + '.moved', path)
    except OSError as e:
        if e.errno not in (errno.EACCES, errno.EPERM, errno.ENAMETOOLONG):
            raise
    return done


def walk(top):
    yield top
    for d, dirs, files in os.walk(top):
        for n in dirs + files:
            yield os.path.join(d, n)


def check_protection(w, ws, faulted, op):
    input_dir = os.path.join(ws, 'input')
    rec = ws_inputs(ws)
    tops = os.listdir(input_dir)
    done = attempts_top(w, input_dir)
    w.check(not done, 'the owner can change the input area', did=done, op=repr(op))
    for n in tops:
        if faulted and n not in rec:
            continue  # remains of a failed command, not an input
        for p in walk(os.path.join(input_dir, n)):
            done = attempts(w, p)
            w.check(not done, 'the owner can change loaded data', path=os.path.relpath(p, ws), did=done, mode=oct(os.lstat(p).st_mode), op=repr(op))
    # own areas
    for d in ('.', 'lib', 'output', 'output/d', 'temp'):
        w.count('own_attempts')
        p = os.path.join(ws, d, 'own-probe')
        try:
            with open(p, 'w') as f:
                f.write('x')
            os.rename(p, p + '2')
            os.unlink(p + '2')
        except OSError as e:
            w.violate('the owner can not change his own files', where=d, error=repr(e), op=repr(op))
    for f in ('src', 'lib/x.py', 'output/o', 'output/d/o2', 'temp/t'):
        w.count('own_attempts')
        w.check(os.access(os.path.join(ws, f), os.W_OK), 'the owner can not change his own file', file=f, op=repr(op))


def attempts_top(w, input_dir):
    if not w.unprivileged:
        return ['mode'] if os.lstat(input_dir).st_mode & stat.S_IWUSR else []
    done = []
    w.count('attempts')
    probe = os.path.join(input_dir, 'probe-by-monitor')
    try:
        os.close(os.open(probe, os.O_CREAT | os.O_EXCL | os.O_WRONLY))
        done.append('create')
        os.unlink(probe)
    except PermissionError:
        pass
    return done


class limited:
    '''no file can be longer than this'''

    def __init__(self, size):
        self.size = size

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.size, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


def run_case(case, w):
    rng = w.rng
    old = os.umask(case['umask'])
    try:
        history(case, w, rng)
    finally:
        os.umask(old)


def history(case, w, rng):
    def tree():
        t = gen.gen_tree(rng, n=rng.choice([0, 1, 2, 4, 8]), feature=rng.choice([None] * 5 + [2, 6, 7, 8, 9, 10, 11]))
        if rng.random() < .25:
            t['zz-big'] = bytes(200_000)
            t['zz/last'] = b'x'
        return t
    s = Session(w, boxes=1, beads=rng.choice([4, 6]), workspaces=1, trees=tree)
    ws = s.workspaces[0]
    faulted = False
    check_protection(w, ws, False, 'new')
    for step in range(case['steps']):
        if rng.random() < .12:
            s.environment()
            continue
        fault = None
        if case['faults'] and rng.random() < .45:
            fault = rng.choice(['io', 'interrupt', 'full'])
        if fault == 'full':
            # the limit is above what metadata and index need
            with limited(150_000):
                op = s.input_op(ws)
        elif fault:
            n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 15, 20, 30])
            exc = OSError(errno.EIO, 'injected') if fault == 'io' else KeyboardInterrupt('injected')
            with audit.watch(fence=w.dir, fault=(n, exc)) as log:
                op = s.input_op(ws)
            if not any(e == 'FAULT' for e, _ in log):
                fault = None
        else:
            op = s.input_op(ws)
        if op is None:
            continue
        if fault:
            faulted = True
            w.count('faults')
        w.check(is_valid_ws(ws), 'workspace became invalid', op=repr(op), _stop=True)
        check_protection(w, ws, faulted, op)
        rec = ws_inputs(ws)
        loaded = {n for n in rec if os.path.isdir(os.path.join(ws, 'input', n))}
        w.seen('state', [op.name, op.result.code, fault, sorted((len(s.expected(rec[n]) or ()), n in loaded) for n in rec), oct(case['umask'])])
        if len(loaded) > 1:
            w.sample(dict(op=op.name, loaded=sorted(loaded), fault=fault, umask=oct(case['umask'])))
    # protected data can be removed
    rec = ws_inputs(ws)
    for n in list(rec):
        p = os.path.join(ws, 'input', n)
        if not os.path.isdir(p):
            continue
        w.count('removals')
        cmd = rng.choice(['unload', 'delete', 'update', 'keep'])
        if cmd == 'keep':
            continue
        if cmd == 'update':
            beads = [b for b in s.good_beads() if b.content_id not in s.oversized and b.content_id != rec[n][1]]
            if not beads:
                continue
            r = s.u.bead('input', 'update', '--', n, beads[0].path, cwd=ws)
            w.check(r.ok and ws_inputs(ws)[n][1] == beads[0].content_id, 'loaded input can not be updated', result=repr(r), tb=r.tb)
        else:
            r = s.u.bead('input', cmd, '--', n, cwd=ws)
            w.check(r.ok and not os.path.lexists(p), 'loaded input can not be removed', cmd=cmd, result=repr(r), tb=r.tb)
        check_protection(w, ws, faulted, cmd)
    w.count('removals')
    r = s.u.bead('discard', ws)
    w.check(r.ok and not os.path.lexists(ws), 'workspace can not be discarded', result=repr(r), tb=r.tb)

import errno
import os

from harness import faults, gen, snap
from harness.cli import User, zips
from harness.runner import force_rmtree
from harness.world import input_tree, put_bead, ws_inputs, ws_meta

PROPERTY = 'C14'
NEEDS_SHIM = True
LEVEL = 'fault_enumeration'
RULE = ('one case = one command on inputs in one workspace, run once for every selected file system call of it (writes and, separately, reads) '
        'with that call being killed before, killed in the middle of the write, failed, failed for good, cut short or interrupted, some of them '
        'followed by a second faulty command; then everything shown as loaded is compared with the recorded bead and the command is repeated; '
        'non-trivial = distinct (command, fault, call number, state left behind) tuples')
REQUIRED = {'faulty_runs': 1800, 'killed': 450, 'failed': 300, 'interrupted': 200, 'read_faults': 200, 'second_faults': 300, 'left_old': 200, 'left_new': 150, 'left_unloaded': 300,
            'repeated': 1200, 'loaded_after': 300, 'compared_inputs': 2000, '#point': 800}
ASSUMPTIONS = ['a crash is the end of the process (kill -9), not a loss of power',
               'what a killed command leaves under other names than those of inputs, and permissions of the input area itself after a fault, do not count']

SCENARIOS = ['add', 'add name', 'add over', 'load', 'load all', 'update', 'update all', 'update file', 'update other', 'prev', 'unload', 'unload all', 'delete', 'load deleted']
LIMIT = {'quick': 14, 'thorough': 1000}


def plan(tier, rng):
    n = 42 if tier == 'quick' else 280
    return [dict(scenario=SCENARIOS[i % len(SCENARIOS)], tree=i // len(SCENARIOS) % 3 if i < 42 else rng.randrange(5), indexed=rng.random() < .3, points=LIMIT[tier]) for i in range(n)]


def make_tree(rng, shape):
    if shape == 0:
        return {'d': b'data', 'a/b/c': b'x', 'a/d': b'', 'e': b'y' * 5000}
    if shape == 1:
        return {f'f{i}': b'%d' % i for i in range(8)} | {'big': rng.randbytes(300_000)}
    if shape == 2:
        return {'x/y/z/deep': b'1', 'x/y/w': b'2', 'x/v/u': b'3', 'm/n': b'4'}
    if shape == 3:
        return {'only': b''}
    return gen.gen_tree(rng, n=5)


class World:
    def __init__(self, case, w):
        self.w, self.rng = w, w.rng
        rng = w.rng
        s = self.scenario = case['scenario']
        self.root = os.path.join(w.dir, 'world')
        self.master = os.path.join(w.dir, 'master')
        self.u = u = User(w, 'world')
        self.box = u.add_box('box')
        t = gen.gen_instant(rng, hi=1500000000)
        self.beads = {}

        def bead(name, kind, k=0):
            data = make_tree(rng, case['tree'])
            data['which'] = b'%s %d' % (name.encode(), k)
            data['common'] = b'version %d' % k
            bf = put_bead(self.box, rng, name, kind=kind, instant=t + k * 10 ** 9, data=data)
            self.beads[bf.content_id] = bf
            return bf
        old, new, other = bead('one', 'kind-1'), bead('one', 'kind-1', 1), bead('two', 'kind-2')
        other2 = bead('two', 'kind-2', 3)
        if case['indexed']:
            u.must('box', 'index', '--box', 'box')
        self.ws = u.path('ws')
        u.must('new', self.ws)
        gen.write_tree(self.ws, {'src': b's', 'lib/y': b'y', 'output/o': b'o', 'temp/t': b't'})
        nick = self.nick = rng.choice(['in', 'ünï', 'a b', 'q"q', '.h', '[x]', 'one', 'n' * 255])
        pre = {'add': [('second', other)], 'add name': [], 'prev': [(nick, new), ('second', other)]}.get(s, [(nick, old), ('second', other)])
        for n, b in pre:
            u.must('input', 'add', '--', n, b.path, cwd=self.ws)
        if s in ('load', 'load all') or s in ('update', 'update all') and rng.random() < .3:
            u.must('input', 'unload', cwd=self.ws)
        if s == 'load deleted':
            # removed by hand
            os.chmod(os.path.join(self.ws, 'input'), 0o755)
            force_rmtree(os.path.join(self.ws, 'input', nick))
            os.chmod(os.path.join(self.ws, 'input'), 0o555)
        self.argv = {
            'add': ['input', 'add', nick, old.path], 'add name': ['input', 'add', nick, 'one'], 'add over': ['input', 'add', nick, other2.path],
            'load': ['input', 'load', nick], 'load all': ['input', 'load'], 'load deleted': ['input', 'load'],
            'update': ['input', 'update', nick], 'update all': ['input', 'update'], 'update file': ['input', 'update', nick, new.path],
            'update other': ['input', 'update', nick, 'two'], 'prev': ['input', 'update', '--prev', nick],
            'unload': ['input', 'unload', nick], 'unload all': ['input', 'unload'], 'delete': ['input', 'delete', nick]}[s]
        self.archives = {n: open(os.path.join(self.box, n), 'rb').read() for n in zips(self.box)}
        self.before = ws_inputs(self.ws)
        faults.clone(self.root, self.master)
        out = self.go()
        w.check(out.ok, 'undisturbed command fails', _stop=True, argv=self.argv, out=repr(out))
        w.check(not out.result.err, 'undisturbed command warns', argv=self.argv, out=repr(out)) if s != 'add over' and s != 'update other' else None
        self.ops = out.ops
        self.final = self.state()
        self.final_meta = ws_inputs(self.ws)
        check_loaded(self, dict(how='undisturbed', argv=self.argv))
        present = {n for n in self.final_meta if os.path.isdir(os.path.join(self.ws, 'input', n))}
        want = {'unload': {'second'}, 'unload all': set(), 'delete': {'second'}}.get(s, set(self.final_meta) if s != 'load' and s not in ('update',) else None)
        w.check(nick in present if want is None else present == want, 'undisturbed command has no effect', argv=self.argv, present=sorted(present))
        expected = {'add': old, 'add name': new, 'add over': other2, 'update': new, 'update all': new, 'update file': new, 'update other': other2, 'prev': old}.get(s, old)
        got = self.final_meta.get(nick)
        w.check(got == (None if s == 'delete' else (expected.kind, expected.content_id, expected.freeze_time_str)), 'undisturbed command records a wrong bead', argv=self.argv, got=got)

    def reset(self):
        force_rmtree(self.root)
        faults.clone(self.master, self.root)

    def go(self, argv=None, reset=True, **kw):
        if reset:
            self.reset()
        return faults.command(self.u, argv or self.argv, cwd=self.ws, scope=self.root, **kw)

    def state(self):
        '''everything in the workspace'''
        s = snap.snapshot(self.ws)
        s = {k: v for k, v in s.items() if not k.startswith('.bead-meta')}
        s['meta'] = ws_meta(self.ws)
        return s


def check_loaded(world, info):
    '''everything shown as loaded is complete'''
    w = world.w
    recorded = ws_inputs(world.ws)
    r = world.u.bead('status', cwd=world.ws)
    w.check(r.ok, 'status fails', result=repr(r), tb=r.tb, **info)
    shown, nick = {}, None
    for l in r.out.splitlines():
        if l.startswith('input/'):
            nick = l[6:]
        elif l.startswith('\tStatus:'):
            shown[nick] = 'NOT' not in l
    w.check(set(shown) == set(recorded), 'status does not list the recorded inputs', shown=shown, recorded=recorded, **info)
    loaded = {}
    for n, (kind, cid, ts) in recorded.items():
        present = os.path.isdir(os.path.join(world.ws, 'input', n))
        w.check(shown.get(n) == present, 'status is wrong', nick=n, shown=shown.get(n), present=present, **info)
        if present or shown.get(n):
            w.count('compared_inputs')
            bf = world.beads.get(cid)
            if not w.check(bf is not None and (bf.kind, bf.freeze_time_str) == (kind, ts), 'recorded input is not a known bead', nick=n, got=(kind, cid, ts), **info):
                continue
            got = input_tree(world.ws, n) if present else {}
            w.check(got == bf.data, 'input is reported as loaded, but its data is not that of the recorded bead', nick=n, diff=snap.diff_files(bf.data, got), **info)
        loaded[n] = present
    return recorded, loaded


def after(world, out, how, n):
    w = world.w
    info = dict(argv=world.argv, how=how, n=n, outcome=repr(out)[:1500])
    w.count('faulty_runs')
    if out.killed:
        w.count('killed')
    recorded, loaded = check_loaded(world, info)
    now, base = snap.snapshot(world.ws, skip=('input', '.bead-meta')), snap.snapshot(os.path.join(world.master, 'ws'), skip=('input', '.bead-meta'))
    w.check(now == base, 'other files of the workspace changed', diff=snap.diff(base, now), **info)
    w.check({f: open(os.path.join(world.box, f), 'rb').read() for f in zips(world.box)} == world.archives, 'archives changed', **info)
    if out.ok and not out.fired:
        final = world.state()
        w.check(final == world.final, 'success but the state is not that of an undisturbed run', diff=snap.diff(world.final, final), **info)
    nick = world.nick
    if not loaded.get(nick):
        w.count('left_unloaded')
    elif recorded[nick] == world.before.get(nick):
        w.count('left_old')
    else:
        w.count('left_new')
    w.seen('point', [world.scenario, how, n, recorded.get(nick) == world.before.get(nick), loaded.get(nick)])
    return info


def converge(world, info):
    '''repeat the command, or load the input'''
    w, u, rng = world.w, world.u, world.rng
    if world.scenario == 'prev' or rng.random() < .25:
        recorded = ws_inputs(world.ws)
        if not recorded:
            return
        nick = world.nick if world.nick in recorded else 'second'
        r = u.bead('input', 'load', '--', nick, cwd=world.ws)
        w.count('loaded_after')
        w.check(r.ok and not r.err, 'loading the input afterwards does not complete', result=repr(r), tb=(r.tb or '')[-1500:], **info)
        rec, loaded = check_loaded(world, dict(info, later='load'))
        w.check(rec == recorded and loaded.get(nick), 'input is not loaded by a later load', nick=nick, **info)
        left = [f for f in os.listdir(os.path.join(world.ws, 'input')) if f not in rec]
        if nick == world.nick and len(world.argv) > 2:
            w.check(not left or not_loaded_now(r), 'a later load leaves something behind', left=left, **info)
        return
    r = u.bead(*world.argv, cwd=world.ws)
    w.count('repeated')
    done_before = world.scenario == 'delete' and world.nick not in ws_inputs(os.path.join(world.ws)) and r.refused
    w.check(r.ok or done_before, 'repeating the command does not complete', result=repr(r), tb=(r.tb or '')[-1500:], **info)
    check_loaded(world, dict(info, later='repeat'))
    final = world.state()
    want = dict(world.final)
    # permissions of the input area: the fault might have hit the very call that sets them
    if final.get('input', [''])[0] == 'dir':
        final['input'] = want['input']
    w.check(final == want, 'repeating the command does not reach the state of an undisturbed run', diff=snap.diff(want, final), **info)


def not_loaded_now(r):
    return 'already loaded' in r.out


def run_case(case, w):
    rng = w.rng
    world = World(case, w)
    total = world.ops
    w.count('max_calls', total)
    points = faults.choose(rng, total, case['points'])

    def inject(how, mode, n, err=errno.EIO, reads=False):
        out = world.go(mode=mode, n=n, err=err, reads=reads)
        info = after(world, out, how, n)
        if rng.random() < .3:
            # one more fault
            argv = rng.choice([world.argv, world.argv, ['input', 'load', '--', world.nick], ['input', 'unload', '--', world.nick]])
            if world.scenario == 'prev':
                argv = ['input', 'load', '--', world.nick]
            m2 = rng.choice([faults.KILL, faults.FAIL, faults.SIGINT])
            n2 = rng.randrange(1, max(total, 3))
            out2 = world.go(argv, reset=False, mode=m2, n=n2, err=errno.EIO)
            w.count('second_faults')
            info = dict(info, second=(argv, faults.NAMES[m2], n2, repr(out2)[:700]))
            check_loaded(world, info)
        converge(world, info)

    for n in points:
        inject('kill', faults.KILL, n)
        how, mode, err = rng.choice([
            ('error', faults.FAIL, errno.EIO), ('no space', faults.FAIL, errno.ENOSPC), ('not permitted', faults.FAIL, errno.EACCES),
            ('full', faults.FAIL_ON, errno.ENOSPC), ('full', faults.FAIL_ON, errno.EDQUOT), ('short', faults.SHORT_FAIL, errno.ENOSPC)])
        w.count('failed')
        inject(how, mode, n, err)
        if rng.random() < .4:
            inject('partial kill', faults.PARTIAL_KILL, n)
        else:
            w.count('interrupted')
            inject('interrupt', faults.SIGINT, n)
    rtotal = world.go(reads=True).ops
    for n in faults.choose(rng, rtotal, case['points']):
        how, mode = rng.choice([('read error', faults.FAIL), ('read error', faults.FAIL), ('interrupt', faults.SIGINT), ('kill', faults.KILL)])
        w.count('read_faults')
        inject(how, mode, n, errno.EIO, reads=True)
    w.sample(dict(scenario=world.scenario, argv=world.argv, calls=total, calls_with_reads=rtotal))

'''
Workspaces are created whole or not at all: new and edit under faults, kills and concurrent creations.
'''
import errno
import json
import os
import time

from harness import beadfile, faults, gen, snap
from harness.cli import User, invoke, zips
from harness.runner import force_rmtree
from harness.world import is_valid_ws, put_bead, random_inputs, ws_inputs, ws_meta, ws_trees

PROPERTY = 'C35'
NEEDS_SHIM = True
LEVEL = 'fault_enumeration'
RULE = ('one case = one way of creating a workspace (new, edit by name or by file, with review, below missing directories), run once for every selected file system call of it (modifying ones and, '
        'separately, reads) with that call being killed before, in the middle of a write, failed, cut short or interrupted, or with another complete creation of the same workspace happening at that call; '
        'then what is there is compared with the bead, used, removed, and created again; non-trivial = distinct (way, fault, call number, what is left) tuples')
REQUIRED = {'faulty_runs': 1500, 'killed': 400, 'failed': 300, 'interrupted': 150, 'read_faults': 200, 'races': 300, 'race_won_by_other': 60, 'race_lost_by_other': 40, 'left_nothing': 100, 'left_invalid': 500,
            'left_complete': 60, 'refused_again': 400, 'not_saved': 300, 'discarded': 400, 'created_again': 1000, '#point': 600}
ASSUMPTIONS = ['a crash is the end of the process (kill -9), not a loss of power']

SCENARIOS = ['new', 'edit', 'edit file', 'review', 'review file', 'new deep', 'edit deep', 'edit time']
LIMIT = {'quick': 12, 'thorough': 1000}


def plan(tier, rng):
    n = 40 if tier == 'quick' else 240
    return [dict(scenario=SCENARIOS[i % len(SCENARIOS)], points=LIMIT[tier], indexed=i // len(SCENARIOS) % 2 == 1) for i in range(n)]


def make_tree(rng, top_reserved=()):
    if rng.random() < .4:
        return {f'f{i}': b'%d' % i for i in range(rng.choice([1, 5]))} | {'d/e/f': rng.randbytes(200_000), 'd/g': b''}
    return gen.gen_tree(rng, n=4, top_reserved=top_reserved)


class World:
    def __init__(self, case, w):
        self.w, self.rng = w, w.rng
        rng = w.rng
        s = self.scenario = case['scenario']
        self.root = os.path.join(w.dir, 'world')
        self.master = os.path.join(w.dir, 'master')
        self.u = u = User(w, 'world')
        self.box = u.add_box('box')
        t = gen.gen_instant(rng, hi=1500000000)
        self.beads = []
        for k in range(2):
            code = make_tree(rng, gen.TOP_RESERVED)
            code['which'] = b'%d' % k
            self.beads.append(put_bead(self.box, rng, 'one', kind='kind-1', instant=t + k * 10 ** 9, code=code, data=make_tree(rng), inputs=random_inputs(rng)))
        self.other_bead = put_bead(self.box, rng, 'other', kind='kind-2', instant=t, code={'other': b'o', 'deep/er': b''}, data={'x': b'y', 'z/z': b''}, inputs=random_inputs(rng, 1))
        if case['indexed']:
            u.must('box', 'index', '--box', 'box')
        u.must('new', u.path('neighbour'))
        self.cwd = u.mkdir('work')
        self.target = os.path.join(self.cwd, rng.choice(['ws', 'one', 'ünï', 'a b']) if 'deep' not in s else os.path.join('p', 'q', rng.choice(['ws', '.x'])))
        old, new = self.beads
        self.bead = {'new': None, 'new deep': None, 'edit time': old}.get(s, new)
        self.review = s.startswith('review')
        ref = new.path if 'file' in s else 'one'
        target = self.target if rng.random() < .5 else os.path.relpath(self.target, self.cwd)
        self.argv = ['new', target] if s.startswith('new') else ['edit', *(['--review'] if self.review else []), *(['-t', old.freeze_time_str] if s == 'edit time' else []), ref, target]
        self.archives = self.read_archives()
        faults.clone(self.root, self.master)
        self.outside = self.rest()
        out = self.go()
        w.check(out.ok and out.result.err == '', 'undisturbed command fails', _stop=True, argv=self.argv, out=repr(out))
        self.ops = out.ops
        w.check(self.left(self.argv_plan()) == 'complete', 'undisturbed command does not create the whole', _stop=True, argv=self.argv)

    def read_archives(self):
        return {n: open(os.path.join(self.box, n), 'rb').read() for n in zips(self.box)}

    def argv_plan(self):
        return self.bead, self.review

    def rest(self):
        '''everything else'''
        top = os.path.relpath(self.target, self.cwd).split(os.sep)[0]
        s = snap.snapshot(self.root)
        return {k: v for k, v in s.items() if k != f'work/{top}' and not k.startswith(f'work/{top}/')}

    def go(self, argv=None, reset=True, **kw):
        if reset:
            force_rmtree(self.root)
            faults.clone(self.master, self.root)
        return faults.command(self.u, argv or self.argv, cwd=self.cwd, scope=self.root, **kw)

    def left(self, plan, info=None):
        '''nothing, invalid, complete - or why it is not complete'''
        target = self.target
        if not os.path.lexists(target):
            return 'nothing'
        if not is_valid_ws(target):
            return 'invalid'
        bead, review = plan
        try:
            meta = ws_meta(target)
        except ValueError:
            return 'valid, but its metadata is unusable'
        code, data = ws_trees(target)
        if os.listdir(os.path.join(target, 'input')) or os.listdir(os.path.join(target, 'temp')):
            return 'valid, but there is something in its areas'
        if bead is None:
            if code or data or not isinstance(meta.get('kind'), str) or not meta['kind'] or meta.get('inputs') != {}:
                return 'valid, but not a new one'
            return 'complete'
        d = snap.diff_files(bead.code, code)
        if d:
            return f'valid, but its sources are not those of the bead: {d}'
        d = snap.diff_files(bead.data if review else {}, data)
        if d:
            return f'valid, but its outputs are not those of the bead: {d}'
        if meta.get('kind') != bead.kind or ws_inputs(target) != beadfile.normal_inputs(bead.inputs):
            return 'valid, but its metadata is not that of the bead'
        return 'complete'


def after(world, out, how, n, reads):
    w, u = world.w, world.u
    info = dict(argv=world.argv, how=how, n=n, outcome=repr(out)[:1500])
    w.count('faulty_runs')
    if out.killed:
        w.count('killed')
    left = world.left(world.argv_plan())
    if reads and 'one' in world.argv[:-1] and left not in ('nothing', 'invalid', 'complete'):
        # archives that can not be read are not considered
        left = world.left((next(b for b in world.beads if b is not world.bead), world.review))
        w.count('left_of_another_bead')
    w.check(left in ('nothing', 'invalid', 'complete'), 'an incomplete workspace looks like a complete one', left=left, **info)
    w.count(f'left_{left.split(",")[0]}')
    if out.ok:
        w.check(left == 'complete', 'success is told, but the workspace is not complete', left=left, **info)
    rest = world.rest()
    w.check(rest == world.outside, 'something else changed', diff=snap.diff(world.outside, rest), **info) if not crash_report(world) else w.count('crash_reports')
    w.seen('point', [world.scenario, how, n, left])
    recover(world, left, info)


def crash_report(world):
    return any(n.startswith('error_') for n in os.listdir(world.cwd))


def recover(world, left, info):
    '''use it, remove it, create it again'''
    w, u, rng = world.w, world.u, world.rng
    argv = [a for a in world.argv]
    if left != 'nothing':
        before = snap.snapshot(world.root)
        r = u.bead(*argv, cwd=world.cwd)
        w.count('refused_again')
        w.check(r.refused and snap.snapshot(world.root) == before, 'creation over what was left is not refused', result=repr(r), left=left, **info)
        if left == 'invalid':
            r = u.bead('save', '-w', world.target, cwd=world.cwd)
            w.count('not_saved')
            w.check(r.refused and world.read_archives() == world.archives, 'what was left can be saved', result=repr(r), left=left, **info)
        r = u.bead('discard', *(['--force'] if left == 'invalid' or rng.random() < .3 else []), world.target, cwd=world.cwd)
        w.count('discarded')
        w.check(r.ok and not os.path.lexists(world.target), 'what was left can not be discarded', result=repr(r), left=left, **info)
    r = u.bead(*argv, cwd=world.cwd)
    w.count('created_again')
    now = world.left(world.argv_plan())
    w.check(r.ok and now == 'complete', 'creation afterwards does not succeed', result=repr(r), left=left, now=now, tb=(r.tb or '')[-1200:], **info)


def race(world, n, reads):
    '''another creation of the same workspace happens at the nth call'''
    w, u, rng = world.w, world.u, world.rng
    kind = rng.choice(['new', 'edit', 'review'])
    argv = ['new', world.target] if kind == 'new' else ['edit', *(['--review'] if kind == 'review' else []), world.other_bead.path, world.target]
    plan2 = (None if kind == 'new' else world.other_bead, kind == 'review')
    report = os.path.join(w.base, 'other.json')
    if os.path.exists(report):
        os.unlink(report)

    def other(_):
        pid = os.fork()
        if pid == 0:
            try:
                faults.lib().shim_disarm()
                r = invoke(argv, world.cwd, u.home, u.config)
                with open(report, 'w') as f:
                    json.dump([r.ok, repr(r)[:800], r.crash is not None], f)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
    out = world.go(mode=faults.CALLBACK, n=n, reads=reads, callback=other)
    if not out.fired:
        return
    w.count('races')
    with open(report) as f:
        ok2, r2, crash2 = json.load(f)
    info = dict(argv=world.argv, other=argv, n=n, reads=reads, outcome=repr(out)[:900], other_outcome=r2)
    w.check(out.result is not None and out.result.crash is None and not crash2, 'creations at the same time crash', **info)
    w.check(not (out.ok and ok2), 'two creations of the same workspace succeed at the same time', **info)
    w.check(out.ok or ok2, 'creations at the same time prevent each other', **info)
    left = [world.left(world.argv_plan()), world.left(plan2)]
    if out.ok != ok2:
        w.count('race_won_by_other' if ok2 else 'race_lost_by_other')
        w.check(left[ok2] == 'complete', 'another creation at the same time spoiled a workspace', left=left[ok2], **info)
    w.check(world.read_archives() == world.archives, 'archives changed', **info)
    w.seen('race', [world.scenario, kind, n, reads, out.ok, ok2])


def run_case(case, w):
    rng = w.rng
    world = World(case, w)
    total = world.ops
    points = faults.choose(rng, total, case['points'])

    def inject(how, mode, n, err=errno.EIO, reads=False):
        after(world, world.go(mode=mode, n=n, err=err, reads=reads), how, n, reads)

    for n in points:
        inject('kill', faults.KILL, n)
        how, mode, err = rng.choice([
            ('error', faults.FAIL, errno.EIO), ('no space', faults.FAIL, errno.ENOSPC), ('not permitted', faults.FAIL, errno.EACCES),
            ('full', faults.FAIL_ON, errno.ENOSPC), ('full', faults.FAIL_ON, errno.EDQUOT), ('short', faults.SHORT_FAIL, errno.ENOSPC)])
        w.count('failed')
        inject(how, mode, n, err)
        if rng.random() < .4:
            inject('partial kill', faults.PARTIAL_KILL, n)
        else:
            w.count('interrupted')
            inject('interrupt', faults.SIGINT, n)
    rtotal = world.go(reads=True).ops
    for n in faults.choose(rng, rtotal, case['points']):
        how, mode = rng.choice([('read error', faults.FAIL), ('read error', faults.FAIL), ('interrupt', faults.SIGINT), ('kill', faults.KILL)])
        w.count('read_faults')
        inject(how, mode, n, errno.EIO, reads=True)
    for n in faults.choose(rng, total, case['points']):
        race(world, n, False)
    for n in faults.choose(rng, rtotal, case['points']):
        race(world, n, True)
    w.sample(dict(scenario=world.scenario, argv=world.argv, calls=total, calls_with_reads=rtotal))

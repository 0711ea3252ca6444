import errno
import json
import os

from harness import beadfile, faults, gen, snap
from harness.cli import User, zips
from harness.runner import force_rmtree
from harness.world import is_valid_ws, put_bead, ws_inputs

PROPERTY = 'C13'
NEEDS_SHIM = True
LEVEL = 'fault_enumeration'
RULE = ('one case = one command that changes the registry or the metadata of a workspace, run once for every selected file system call of it '
        'with that call being killed before, killed in the middle of the write, failed, failed for good (full disk), cut short or interrupted; '
        'the files are then parsed independently and compared with their old and new content, and a series of later commands is run; '
        'non-trivial = distinct (command, kind of fault, system call number, old/new/absent outcome) tuples')
REQUIRED = {'faulty_runs': 1500, 'killed': 400, 'failed': 400, 'interrupted': 150, 'stayed_old': 500, 'became_new': 150, 'later_commands': 5000, '#point': 500}
ASSUMPTIONS = ['a crash is the end of the process (kill -9), not a loss of power: what was written by finished system calls is there']

SCENARIOS = ['first box', 'nth box', 'forget', 'forget only', 'home box', 'linked registry', 'many boxes', 'add', 'add second', 'update', 'update all', 'update file', 'delete', 'load', 'load all', 'unload',
             'add many', 'add other', 'new', 'edit', 'edit review', 'damaged']
LIMIT = {'quick': 22, 'thorough': 1000}


def plan(tier, rng):
    n = 44 if tier == 'quick' else 220
    return [dict(scenario=SCENARIOS[i % len(SCENARIOS)], points=LIMIT[tier]) for i in range(n)]


class World:
    def __init__(self, case, w):
        self.w, self.rng = w, w.rng
        rng = w.rng
        s = self.scenario = case['scenario']
        self.root = os.path.join(w.dir, 'world')
        self.master = os.path.join(w.dir, 'master')
        self.u = u = User(w, 'world')
        self.work = u.mkdir('work')
        for i in range(4):
            u.mkdir(f'place{i}')
        self.cwd = self.root
        self.ws = None
        self.box = u.mkdir('box')
        self.late_box = u.mkdir('late')
        if s == 'first box':
            self.argv = ['box', 'add', 'first', u.path('place0')]
        elif s == 'home box':
            self.make_ws([])
            self.argv = ['save']
        else:
            u.must('box', 'add', 'box', self.box)
            if s == 'nth box':
                u.must('box', 'add', rng.choice(['b', 'ünï', 'x' * 300]), u.path('place0'))
                self.argv = ['box', 'add', rng.choice(['c', 'q"q', '日本' * 1000]), u.path('place1')]
            elif s == 'many boxes':
                for i in range(60):
                    u.must('box', 'add', f'm{i}' + 'x' * 150, u.mkdir(f'many{i}'))
                self.argv = rng.choice([['box', 'add', 'more', u.path('place1')], ['box', 'forget', 'm7' + 'x' * 150]])
            elif s == 'forget':
                u.must('box', 'add', 'b', u.path('place0'))
                u.must('box', 'add', 'c', u.path('place1'))
                self.argv = ['box', 'forget', rng.choice(['b', 'c', 'box'])]
            elif s == 'forget only':
                self.argv = ['box', 'forget', 'box']
            elif s == 'linked registry':
                t = u.path('place3', 'registry')
                os.rename(u.registry_file, t)
                os.symlink(t, u.registry_file)
                self.argv = ['box', 'add', 'c', u.path('place1')]
            else:
                self.inputs(s)
        self.late = put_bead(self.late_box, rng, 'late', kind='late-kind')
        self.registry = self.read_registry()
        self.meta = self.read_meta()
        self.archives = {n: open(os.path.join(self.box, n), 'rb').read() for n in zips(self.box)}
        faults.clone(self.root, self.master)
        # what an undisturbed run does
        out = self.go()
        w.check(out.ok or s == 'damaged', 'undisturbed command fails', _stop=True, argv=self.argv, out=repr(out))
        self.ops = out.ops
        self.new_registry, self.new_meta = self.read_registry(), self.read_meta()
        self.box_changed = zips(self.box) != sorted(self.archives)
        if s not in ('damaged', 'load', 'load all', 'unload', 'new', 'edit', 'edit review'):
            w.check((self.registry, self.meta) != (self.new_registry, self.new_meta), 'undisturbed command changes nothing', _stop=True, argv=self.argv)

    def make_ws(self, inputs, unload=False):
        u = self.u
        self.ws = os.path.join(self.work, 'ws')
        u.must('new', self.ws)
        gen.write_tree(self.ws, {'src': b's', 'output/o': b'o'})
        for nick, bf in inputs:
            u.must('input', 'add', '--', nick, bf.path, cwd=self.ws)
        if unload:
            u.must('input', 'unload', cwd=self.ws)
        self.cwd = self.ws

    def inputs(self, s):
        rng = self.rng
        t = gen.gen_instant(rng, hi=1500000000)

        def bead(name, kind, k=0):
            trees = rng.choice([{'d': b'data'}, {'a/b/c': b'x', 'a/d': b'', 'e': b'y' * 5000}, {f'f{i}': b'%d' % i for i in range(6)}])
            return put_bead(self.box, rng, name, kind=kind, instant=t + k * 10 ** 9, data=trees)
        old, new, other = bead('one', 'kind-1'), bead('one', 'kind-1', 1), bead('two', 'kind-2')
        bead('two', 'kind-2', 3)
        if s in ('new', 'edit', 'edit review'):
            target = os.path.join(self.work, 'fresh')
            self.argv = ['new', target] if s == 'new' else ['edit'] + (['--review'] if s.endswith('review') else []) + [new.path, target]
            self.target = target
            self.target_bead = None if s == 'new' else new
            return
        nick = rng.choice(['in', 'ünï', 'a b', 'q"q'])
        pre = {'add': [], 'add many': [(f'n{i}', rng.choice([old, other])) for i in range(25)], 'damaged': [(nick, old)], 'add other': [('a', other)]}.get(s, [(nick, old), ('second', other)])
        self.make_ws(pre, unload=s in ('load', 'load all'))
        if s == 'damaged':
            with open(new.path, 'r+b') as f:
                f.write(b'not a zip anymore')
        self.argv = {
            'add': ['input', 'add', nick, old.path], 'add second': ['input', 'add', 'third', 'one'], 'add many': ['input', 'add', 'more', 'two'], 'add other': ['input', 'add', 'b', 'one'],
            'update': ['input', 'update', nick], 'update all': ['input', 'update'], 'update file': ['input', 'update', nick, other.path], 'damaged': ['input', 'add', 'x', other.path],
            'delete': ['input', 'delete', nick], 'load': ['input', 'load', nick], 'load all': ['input', 'load'], 'unload': ['input', 'unload', nick]}[s]

    def reset(self):
        force_rmtree(self.root)
        faults.clone(self.master, self.root)

    def go(self, **kw):
        self.reset()
        return faults.command(self.u, self.argv, cwd=self.cwd, scope=self.root, **kw)

    def read_registry(self):
        '''None: absent'''
        try:
            with open(self.u.registry_file, 'rb') as f:
                return [(b['name'], b['directory']) for b in json.loads(f.read())['boxes']]
        except FileNotFoundError:
            return None

    def read_meta(self):
        if self.ws is None:
            return None
        with open(os.path.join(self.ws, '.bead-meta', 'bead'), 'rb') as f:
            m = json.loads(f.read())
        return m['kind'], beadfile.normal_inputs(m['inputs'])


def after(world, out, how, n):
    w, u = world.w, world.u
    info = dict(scenario=world.scenario, argv=world.argv, how=how, n=n, outcome=repr(out)[:1500])
    w.count('faulty_runs')
    if out.killed:
        w.count('killed')
    state = []
    try:
        reg = world.read_registry()
    except Exception as e:
        w.violate('the registry of boxes is broken', error=repr(e), content=open(u.registry_file, 'rb').read()[:300], **info)
        return
    w.check(reg in (world.registry, world.new_registry), 'the registry is neither old nor new', got=reg, old=world.registry, new=world.new_registry, **info)
    if world.registry != world.new_registry:
        state.append('old' if reg == world.registry else 'new')
    meta = None
    if world.ws:
        try:
            meta = world.read_meta()
        except Exception as e:
            w.violate('metadata of the workspace is broken', error=repr(e), **info)
            return
        a, b = world.meta[1], world.new_meta[1]
        if 'all' in world.scenario:
            # several inputs one after the other
            ok = meta[0] == world.meta[0] and set(meta[1]) in (set(a), set(b)) and all(meta[1][k] in (a.get(k), b.get(k)) for k in meta[1])
        else:
            ok = meta in (world.meta, world.new_meta)
        w.check(ok, 'the metadata is neither old nor new', got=meta, old=world.meta, new=world.new_meta, **info)
        if a != b:
            state.append('old' if meta == world.meta else 'new' if meta == world.new_meta else 'between')
    if world.scenario in ('new', 'edit', 'edit review'):
        m = os.path.join(world.target, '.bead-meta', 'bead')
        if os.path.lexists(m):
            try:
                with open(m) as f:
                    m = json.load(f)
                b = world.target_bead
                good = isinstance(m['kind'], str) and m['inputs'] == {} if b is None else (m['kind'], m['inputs']) == (b.kind, b.inputs)
            except Exception as e:
                good = False
            w.check(good, 'metadata of the new workspace is broken', meta=repr(m)[:500], **info)
        state.append('new' if is_valid_ws(world.target) else 'old')
        w.check(not out.ok or state[-1] == 'new', 'success without a workspace', **info)
    if out.ok:
        w.check(reg == world.new_registry and (meta is None or meta == world.new_meta), 'success is reported but there is no effect', got=(reg, meta), **info)
    w.count('stayed_old', state.count('old'))
    w.count('became_new', state.count('new'))
    w.seen('point', [world.scenario, how, n, state])
    later(world, reg, meta, info)


def later(world, reg, meta, info):
    '''all later commands work as usual'''
    w, u = world.w, world.u

    def must(*argv, cwd=None):
        w.count('later_commands')
        r = u.bead(*argv, cwd=cwd)
        if not r.ok:
            w.violate('a later command fails', _stop=True, later=argv, result=repr(r), tb=(r.tb or '')[-1500:], **info)
        return r
    r = must('box', 'list')
    want = [f'{n}: {d}' for n, d in reg or []]
    w.check([l for l in r.out.splitlines() if ': ' in l] == want, 'later list of boxes is wrong', got=r.out, want=want, **info)
    must('box', 'add', 'late box', world.late_box)
    w.check(world.read_registry() == (reg or []) + [('late box', world.late_box)], 'later addition of a box goes wrong', got=world.read_registry(), **info)
    if world.ws:
        r = must('status', cwd=world.ws)
        w.check(all(f'input/{n}\n' in r.out for n in meta[1]), 'later status is wrong', got=r.out, **info)
        must('input', 'add', 'late-input', world.late.path, cwd=world.ws)
        b = world.late
        got = ws_inputs(world.ws)
        w.check(got == {**meta[1], 'late-input': (b.kind, b.content_id, b.freeze_time_str)}, 'later addition of an input goes wrong', got=got, **info)
        must('input', 'delete', 'late-input', cwd=world.ws)
        must('save', 'late box', cwd=world.ws)
        w.check(ws_inputs(world.ws) == meta[1], 'later commands have changed the inputs', **info)
    if world.scenario in ('new', 'edit', 'edit review'):
        # try again, after removing what is there
        if os.path.lexists(world.target):
            must('discard', '--force', world.target)
        must(*world.argv)
        w.check(is_valid_ws(world.target), 'later attempt does not make a workspace', **info)
    must('box', 'forget', 'late box')
    w.check((world.read_registry() or []) == (reg or []), 'later removal of a box goes wrong', got=world.read_registry(), **info)


def run_case(case, w):
    rng = w.rng
    world = World(case, w)
    total = world.ops
    w.count('max_calls', total)
    points = faults.choose(rng, total, case['points'])
    for n in points:
        after(world, world.go(mode=faults.KILL, n=n), 'kill', n)
        how, mode, err = rng.choice([
            ('error', faults.FAIL, errno.EIO), ('no space', faults.FAIL, errno.ENOSPC), ('not permitted', faults.FAIL, errno.EACCES),
            ('full', faults.FAIL_ON, errno.ENOSPC), ('full', faults.FAIL_ON, errno.EDQUOT), ('short', faults.SHORT_FAIL, errno.ENOSPC)])
        w.count('failed')
        after(world, world.go(mode=mode, n=n, err=err), how, n)
        if rng.random() < .5:
            after(world, world.go(mode=faults.PARTIAL_KILL, n=n), 'partial kill', n)
        else:
            w.count('interrupted')
            after(world, world.go(mode=faults.SIGINT, n=n), 'interrupt', n)
    w.sample(dict(scenario=world.scenario, argv=world.argv, calls=total, points=len(points)))

import json
import os
import select
import signal
import time
import traceback

from bead.box import search
from bead.ziparchive import ZipArchive

from harness import beadfile, faults, gen, snap
from harness.cli import User, invoke, zips
from harness.query import boxes_of
from harness.runner import force_rmtree
from harness.world import box_records, input_tree, put_bead, ws_inputs

PROPERTY = 'C15'
NEEDS_SHIM = True
LEVEL = 'exploration'
RULE = ('one case = one box (plain, indexed, or being indexed for the first time or again) used by several processes: either pairs of operations, where one '
        'is suspended at a selected file system call and the other runs (or as far as locks let it run), for every selected call, or 6 processes '
        'running series of operations with random delays at their file system calls; every process records the time and outcome of its operations, '
        'and the recorded history is checked; non-trivial = distinct (operations, call number, index state, seen) tuples and distinct completion orders')
REQUIRED = {'pairs': 900, 'histories': 14, 'saves': 900, 'searches': 200, 'loads': 120, 'index_runs': 400, 'overlapping_saves': 200, 'searches_during_saves': 120,
            'partial_files_seen': 40, 'must_see': 1000, 'inputs_seen': 500, 'monotone_pairs': 200, '#order': 14, '#pair': 500}
ASSUMPTIONS = ['all processes run on one machine; delays are injected at system calls that open, read, write, sync, rename or remove files of the box',
               'while a box is being indexed from scratch its searches may be incomplete until that ends']

PAIRS = [('save', 'save'), ('save', 'search'), ('save', 'load'), ('save', 'index'), ('index', 'save'), ('search', 'save'), ('load', 'save'), ('save', 'status'),
         ('index', 'search'), ('index', 'index'), ('status', 'save'), ('save', 'web'), ('load', 'index')]


def plan(tier, rng):
    cases = []
    rep = 2 if tier == 'quick' else 12
    for k in range(rep):
        for j, (a, b) in enumerate(PAIRS):
            cases.append(dict(mode='pair', outer=a, inner=b, index=('indexed', 'plain')[(k + j) % 2], points=30 if tier == 'quick' else 400))
            if {'index'} & {a, b}:
                cases[-1]['index'] = 'indexed'
        for a, b in [('save', 'index'), ('index', 'save'), ('save', 'reindex'), ('reindex', 'save'), ('index', 'index'), ('search', 'reindex')]:
            cases.append(dict(mode='pair', outer=a, inner=b, index='indexed' if 'reindex' in (a, b) else 'plain', points=30 if tier == 'quick' else 400, scratch=True))
    for k in range(16 if tier == 'quick' else 160):
        # (long ones first)
        cases.insert(0, dict(mode='history', index=('indexed', 'plain', 'indexed')[k % 3], scratch=k % 8 == 7, procs=6, ops=5))
    return cases


class World:
    def __init__(self, case, w):
        self.w, self.rng, self.case = w, w.rng, case
        rng = w.rng
        self.root = os.path.join(w.dir, 'world')
        self.master = os.path.join(w.dir, 'master')
        self.u = u = User(w, 'world')
        self.box = u.add_box('box')
        t = 1_400_000_000_000_000
        self.initial = [put_bead(self.box, rng, 'job', kind='kind-1', instant=t), put_bead(self.box, rng, 'job', kind='kind-1', instant=t + 10 ** 9),
                        put_bead(self.box, rng, 'other', kind='kind-2', instant=t + 5, inputs={'in': ('kind-1', 'x' * 128, beadfile.ts_from_instant(t))})]
        self.scratch = bool(case.get('scratch'))
        if case['index'] == 'indexed':
            u.must('box', 'index', '--box', 'box')
        self.users = []
        for i in range(case.get('procs', 2)):
            d = u.mkdir(f'p{i}')
            ws = os.path.join(d, 'job' if i != 2 else 'fresh')
            if i == 2:
                u.must('new', ws)
            else:
                u.must('edit', self.initial[1].path, ws)
            gen.write_tree(ws, {'src': b'p%d' % i, 'output/data': rng.randbytes(rng.choice([10, 3000, 200_000]))})
            u.must('input', 'add', 'in', self.initial[2].path, cwd=ws)
            self.users.append(ws)
        faults.clone(self.root, self.master)

    def reset(self):
        force_rmtree(self.root)
        faults.clone(self.master, self.root)

    # ---- operations, in processes of their own; they report what happened
    def op(self, who, name, serial):
        ws = self.users[who]
        u = self.u
        ev = dict(who=who, op=name, serial=serial)

        def cmd(*argv):
            r = invoke(argv, ws, u.home, u.config)
            ev.update(ok=r.ok, crash=repr(r.crash) if r.crash else None, out=r.out[-300:], err=r.err[-600:], tb=(r.tb or '')[-1200:])
            return r
        if name == 'save':
            # part of the workspace, not of the save
            ev['token'] = f'token {who} {serial}'
            with open(os.path.join(ws, 'output', 'token'), 'w') as f:
                f.write(ev['token'])
        if name in ('search', 'load', 'status', 'web'):
            ev['partial'] = sum(not complete(os.path.join(self.box, n)) for n in zips(self.box))
        ev['t0'] = time.monotonic_ns()
        if name == 'save':
            r = cmd('save', 'box')
            m = 'Successfully stored bead at '
            if r.ok and m in r.out:
                ev['path'] = r.out.split(m)[1].strip().rstrip('.')
        elif name == 'search':
            try:
                found = search(boxes_of({'box': self.box})).all()
                ev['seen'] = sorted((b.name, b.content_id) for b in found)
                ev['facts'] = [[str(b.name), b.content_id, facts(b.kind, b.freeze_time_str, beadfile.spec_inputs(b.inputs))] for b in found]
                ev['ok'] = True
            except Exception as e:
                ev.update(ok=False, crash=repr(e), tb=traceback.format_exc()[-1200:])
            finally:
                import bead.zipopener
                bead.zipopener.close_all()
        elif name == 'load':
            r = cmd('input', 'add', f'n{serial}', 'job')
            if r.ok:
                ev['record'] = ws_inputs(ws).get(f'n{serial}')
                p = os.path.join(ws, 'input', f'n{serial}')
                ev['data'] = sorted((n, b.hex()) for n, b in input_tree(ws, f'n{serial}').items()) if os.path.isdir(p) else None
        elif name == 'status':
            cmd('status')
        elif name == 'web':
            cmd('web', 'color')
        else:
            r = cmd('box', name, '--box', 'box')
            ev['ok'] = r.ok and 'Failed' not in r.out and 'ERROR' not in r.out
        ev['t1'] = time.monotonic_ns()
        return ev


def facts(kind, time, inputs):
    return [kind, time, sorted([nick, *spec] for nick, spec in inputs.items())]


def complete(path):
    try:
        beadfile.BeadFile(path)
        return True
    except Exception:
        return False


class Helper:
    '''a process that runs something when told so'''

    def __init__(self, fn):
        self.go_r, self.go_w = os.pipe()
        self.out_r, self.out_w = os.pipe()
        self.done_r, self.done_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.go_w)
                os.close(self.out_r)
                os.close(self.done_r)
                signal.alarm(0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                if os.read(self.go_r, 1):
                    faults.lib().shim_nosync(1)
                    try:
                        data = json.dumps(fn())
                    except Exception:
                        data = json.dumps(dict(harness_error=traceback.format_exc()))
                    os.close(self.done_w)
                    data = data.encode() + b'\n'
                    while data:
                        data = data[os.write(self.out_w, data):]
            finally:
                os._exit(0)
        os.close(self.go_r)
        os.close(self.out_w)
        os.close(self.done_w)

    def go(self):
        os.write(self.go_w, b'x')

    def wait(self, seconds):
        '''has it finished in time? (can be called in another process)'''
        return bool(select.select([self.done_r], [], [], seconds)[0])

    def finish(self, seconds):
        '''its result, None: it was not told to go'''
        os.close(self.go_w)
        data = b''
        end = time.monotonic() + seconds
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([self.out_r], [], [], left)[0]:
                os.kill(self.pid, signal.SIGKILL)
                data = b'{"stuck": true}'
                break
            b = os.read(self.out_r, 1 << 16)
            if not b:
                break
            data += b
        os.waitpid(self.pid, 0)
        os.close(self.out_r)
        os.close(self.done_r)
        return json.loads(data) if data else None


def judge(world, events, **info):
    '''the history checker'''
    w = world.w
    saves = [e for e in events if e['op'] == 'save']
    brief = [(e['who'], e['op'], e['t0'] // 1000 % 10 ** 9, e['t1'] // 1000 % 10 ** 9) for e in events]
    info = dict(info, events=brief)
    w.log('history', brief)
    scratch = world.scratch

    # ---- nothing fails
    for e in events:
        if e['ok']:
            continue
        if e['op'] == 'save' and e.get('crash') is None and 'File exists' in (e.get('err') or ''):
            w.count('collisions')
            continue
        if scratch and e['op'] == 'load' and 'Not a known bead name' in (e.get('err') or ''):
            # not yet indexed
            w.count('excused')
            continue
        w.violate('an operation fails because of concurrent ones', op=e['op'], crash=e.get('crash'), out=e.get('out'), err=e.get('err'), tb=e.get('tb'), **info)

    # ---- every successful save has its own complete bead
    stored = {}
    for e in saves:
        w.count('saves')
        if not e['ok']:
            continue
        p = e.get('path')
        if not w.check(p and os.path.isfile(p), 'successful save, but the archive is not there', path=p, **info):
            continue
        try:
            bf = beadfile.BeadFile(p)
            ZipArchive(p).validate()
        except Exception as x:
            w.violate('bead of a successful save can not be verified', error=repr(x), path=p, **info)
            continue
        w.check(not bf.problems, 'bead of a successful save is inconsistent', problems=bf.problems, **info)
        w.check(bf.data.get('token') == e['token'].encode(), 'bead of a save has other content', token=e['token'], got=bf.data.get('token'), **info)
        w.check(bf.path not in stored, 'two saves have the same bead', **info)
        stored[bf.path] = e
        e['key'] = (bf.name, bf.content_id)
        e['freeze'] = bf.instant
    final = {(b.name, b.content_id): b for b in box_records(world.box)}
    initial = {(b.name, b.content_id) for b in world.initial}
    w.check(len(zips(world.box)) == len(initial) + len(stored), 'number of archives is wrong', files=zips(world.box), saves=len(stored), **info)
    everything = initial | {e['key'] for e in stored.values()}
    w.check(set(final) == everything, 'beads in the box are wrong', **info)

    # ---- overlaps (what has been explored)
    for i, a in enumerate(saves):
        for b in saves[i + 1:]:
            if a['t0'] < b['t1'] and b['t0'] < a['t1']:
                w.count('overlapping_saves')

    # ---- what searches and loads have seen
    searches = sorted((e for e in events if e['op'] == 'search' and e['ok']), key=lambda e: e['t0'])
    for e in events:
        w.count('partial_files_seen', e.get('partial', 0))
        w.count({'search': 'searches', 'load': 'loads', 'index': 'index_runs', 'reindex': 'index_runs'}.get(e['op'], 'other_operations'))
    for e in searches:
        seen = {tuple(k) for k in e['seen']}
        if any(s['t0'] < e['t1'] and e['t0'] < s['t1'] for s in saves):
            w.count('searches_during_saves')
        w.check(len(seen) == len(e['seen']), 'a bead is shown twice', **info)
        w.check(seen <= everything, 'a search shows something else than the complete beads', extra=sorted(seen - everything), **info)
        for name, cid, got in e['facts']:
            bf = final.get((name, cid))
            if bf is not None:
                w.count('inputs_seen', len(got[2]))
                want = facts(bf.kind, bf.freeze_time_str, beadfile.normal_inputs(bf.inputs))
                w.check(got == want, 'a search shows a bead without all its properties', name=name, got=got, want=want, **info)
        if not scratch:
            must = initial | {s['key'] for s in saves if 'key' in s and s['t1'] < e['t0']}
            w.count('must_see', len(must))
            w.check(must <= seen, 'a search misses beads saved before', missing=sorted(must - seen), who=e['who'], t0=e['t0'] // 1000 % 10 ** 9, **info)
            for f in searches:
                if e['t1'] < f['t0']:
                    w.count('monotone_pairs')
                    w.check(seen <= {tuple(k) for k in f['seen']}, 'a bead seen once disappears', **info)
    for e in events:
        if e['op'] != 'load' or not e['ok']:
            continue
        rec = tuple(e.get('record') or ())
        bf = next((b for b in final.values() if (b.kind, b.content_id, b.freeze_time_str) == rec), None)
        if not w.check(bf is not None and bf.name == 'job', 'loaded bead is not one of the complete ones', record=rec, data=e.get('data') is not None, **info):
            continue
        got = {n: bytes.fromhex(b) for n, b in e.get('data') or []}
        w.check(e.get('data') is not None and got == bf.data, 'loaded data is not that of the recorded bead', diff=snap.diff_files(bf.data, got), **info)
        if not scratch:
            newest = max([b.instant for b in world.initial if b.name == 'job'] + [s['freeze'] for s in saves if 'key' in s and s['key'][0] == 'job' and s['t1'] < e['t0']])
            w.check(bf.instant >= newest, 'an older bead is loaded instead of the newest', **info)

    # ---- afterwards
    def found():
        try:
            return {(str(b.name), b.content_id) for b in search(boxes_of({'box': world.box})).all()}
        finally:
            import bead.zipopener
            bead.zipopener.close_all()
    if any(not e['ok'] for e in events if e['op'] in ('index', 'reindex')):
        return
    got = found()
    w.check(got == everything, 'saved beads are not found afterwards', missing=sorted(everything - got), extra=sorted(got - everything), **info)
    if os.path.exists(os.path.join(world.box, '.index.sqlite')) and world.rng.random() < .2:
        world.u.must('box', 'index', '--box', 'box')
        got = found()
        w.check(got == everything, 'saved beads are not found after indexing', missing=sorted(everything - got), extra=sorted(got - everything), **info)


def pair(world, outer, inner, n):
    '''inner runs when outer reaches its nth call'''
    world.reset()
    h = Helper(lambda: world.op(1, inner, 1))
    state = {}

    def callback(_):
        state['reached'] = True
        h.go()
        state['through'] = h.wait(.25)

    def run(wfd):
        L = faults.lib()
        L.shim_nosync(1)
        cb = faults.CALLBACK_TYPE(callback)
        L.shim_callback(cb)
        L.shim_arm(faults.CALLBACK, n, 0, os.fsencode(os.path.realpath(world.box)), 1)
        try:
            ev = world.op(0, outer, 0)
        finally:
            L.shim_disarm()
        ev['calls'] = L.shim_ops()
        ev['state'] = state
        return ev
    try:
        out = faults.in_child(run)
    finally:
        ev = h.finish(30)
    return out.data, ev, out


def run_case(case, w):
    world = World(case, w)
    rng = w.rng
    if case['mode'] == 'history':
        return history(world, case)
    outer, inner = case['outer'], case['inner']
    ev, _, out = pair(world, outer, inner, 10 ** 9)
    w.check(bool(ev) and ev['ok'], 'an operation fails alone', op=outer, outcome=repr(out), ev=ev, _stop=True)
    total = ev['calls']
    w.count('max_calls', total)
    for n in faults.choose(rng, total, case['points']):
        a, b, out = pair(world, outer, inner, n)
        w.count('pairs')
        events = [e for e in (a, b) if e]
        if any(e.get('harness_error') for e in events):
            raise RuntimeError(events)
        if w.check(a is not None and not any(e.get('stuck') for e in events), 'an operation hangs or dies', outer=outer, inner=inner, n=n, outcome=repr(out)):
            w.count('both_ran' if b else 'outer_only')
            if b and not a['state'].get('through'):
                w.count('waited_for_locks')
            judge(world, events, outer=outer, inner=inner, n=n, index=case['index'])
            w.seen('pair', [outer, inner, n, case['index'], world.scratch, [len(e.get('seen', ())) for e in events]])
    w.sample(dict(outer=outer, inner=inner, calls=total, index=case['index']))


def history(world, case):
    w, rng = world.w, world.rng
    helpers = []
    scratch_ops = ['index', 'reindex'] if case['scratch'] else []
    for i in range(case['procs']):
        kinds = rng.choice([['save'] * 3 + ['search', 'load'], ['search'] * 3 + ['load', 'index', 'status'], ['save', 'save', 'index', 'search'], ['save']])
        if case['index'] == 'plain' and not scratch_ops:
            kinds = [k for k in kinds if k != 'index'] or ['save']
        series = [rng.choice(kinds + scratch_ops) for _ in range(case['ops'])]
        if i < 2:
            series[0] = 'save'
        if i >= 4:
            series[-1] = series[1] = 'search'
        seed, delay = rng.randrange(10 ** 6), rng.choice([200, 1000, 3000])

        def run(i=i, series=series, seed=seed, delay=delay):
            faults.lib().shim_delay(delay, seed, os.fsencode(os.path.realpath(world.box)))
            return [world.op(i, s, k) for k, s in enumerate(series)]
        helpers.append(Helper(run))
    for h in helpers:
        h.go()
    events = []
    stuck = False
    for h in helpers:
        r = h.finish(100)
        if isinstance(r, list):
            events += r
        else:
            stuck = r or 'died'
    w.count('histories')
    if not w.check(not stuck, 'a process hangs or dies', what_happened=stuck):
        return
    events.sort(key=lambda e: e['t1'])
    w.seen('order', [(e['who'], e['op']) for e in events])
    judge(world, events)
    w.sample(dict(index=case['index'], scratch=case['scratch'], order=[(e['who'], e['op']) for e in events][:12]))

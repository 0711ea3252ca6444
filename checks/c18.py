import os
import shutil

from harness import beadfile, gen, snap
from harness.cli import User
from harness.query import NAME_FAMILIES
from harness.world import box_records, input_tree, put_bead, ws_inputs, ws_trees

PROPERTY = 'C18'
LEVEL = 'exploration'
RULE = ('one case = a random history of version selecting commands (add and edit by name with and without time limit, update to newest, to a '
        'time limit, to next or previous, to another name, of all inputs) over boxes with many versions of few kinds and names near in time, '
        'with copies, renamed copies, other kinds under the same name, disappearing beads and indexed boxes; the selected bead is compared with '
        'a reference selection over independently parsed archives; '
        'non-trivial = distinct (command, limit relative to versions, number of candidates, outcome) tuples')
REQUIRED = {'selections': 2500, 'selected': 1200, 'not_found': 250, 'left_alone': 120, 'refused': 100, 'by_name': 500, 'by_kind': 800,
            'next_prev': 400, 'all_inputs': 150, 'limited': 500, 'across_boxes': 300, '#choice': 150}


def plan(tier, rng):
    n = 110 if tier == 'quick' else 2500
    return [dict(boxes=[1, 2, 3, 5][i % 4], beads=[4, 8, 14, 24][i // 4 % 4], indexed=[0, .5, 1][i % 3], steps=36) for i in range(n)]


class World:
    def __init__(self, w, case):
        self.w, self.rng = w, w.rng
        rng = w.rng
        self.u = User(w)
        self.boxes = {f'box{i}': self.u.add_box(f'box{i}') for i in range(case['boxes'])}
        self.names = rng.choice([f for f in NAME_FAMILIES if not any('\n' in n or n == '--' for n in f)])[:4]
        self.kinds = rng.sample(gen.KINDS, 3)
        self.step = rng.choice([1, 1000, 1_000_000, 3600 * 1_000_000])
        self.start = gen.gen_instant(rng)
        self.by_cid = {}
        for _ in range(case['beads']):
            self.put()
        for n in self.boxes:
            if rng.random() < case['indexed']:
                self.u.must('box', 'index', '--box', n)
        self.work = self.u.mkdir('work')
        self.ws = os.path.join(self.work, 'ws')
        self.u.must('new', self.ws)
        self.edits = 0

    def put(self):
        rng = self.rng
        d = rng.choice(list(self.boxes.values()))
        # a grid of moments: equal, next to each other and far versions
        t = self.start - self.step * rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 20, 100])
        name, offset = rng.choice(self.names), rng.choice(gen.OFFSETS)
        if os.path.exists(os.path.join(d, f'{name}_{beadfile.ts_from_instant(t, offset)}.zip')):
            return
        bf = put_bead(d, rng, name, instant=t, offset=offset, kind=rng.choice(self.kinds),
                      code={'c': rng.randbytes(6)}, data={'d': rng.randbytes(6)} if rng.random() < .8 else {})
        self.by_cid[bf.content_id] = bf

    def records(self):
        return [b for n, d in self.boxes.items() for b in box_records(d, n)]

    def files(self):
        return [os.path.join(d, n) for d in self.boxes.values() for n in sorted(os.listdir(d)) if n.endswith('.zip')]

    def environment(self):
        '''changes outside of the tool, those that indexes need to know are followed by an update of the index'''
        rng = self.rng
        k = rng.randrange(4)
        if k == 0:
            self.put()
        elif k == 1:
            fs = self.files()
            if len(fs) > 3:
                os.unlink(rng.choice(fs))
        else:
            p = rng.choice(self.files())
            n = os.path.basename(p) if k == 2 else rng.choice(self.names) + f'_{beadfile.ts_from_instant(self.start)}.zip'
            t = os.path.join(rng.choice(list(self.boxes.values())), n)
            if not os.path.exists(t):
                shutil.copy(p, t)
        for n, d in self.boxes.items():
            if os.path.exists(os.path.join(d, '.index.sqlite')):
                self.u.must('box', 'index', '--box', n)

    def limit(self, rs):
        '''a moment (microseconds) and how to say it'''
        rng = self.rng
        t = rng.choice(rs).instant if rs and rng.random() < .85 else self.start - self.step * rng.choice([-1, 9, 50, 101])
        t += rng.choice([0, 0, 0, 1, -1, self.step // 2])
        off = rng.choice(gen.OFFSETS)
        return t, beadfile.ts_from_instant(t, off)


def newest(rs):
    t = max((r.instant for r in rs), default=None)
    return [r for r in rs if r.instant == t]


def oldest(rs):
    t = min((r.instant for r in rs), default=None)
    return [r for r in rs if r.instant == t]


def triple(r):
    return (r.kind, r.content_id, r.freeze_time_str)


def stamps(p):
    '''identity of everything in a directory'''
    out = {}
    for root, ds, fs in os.walk(p):
        for n in [''] + fs:
            s = os.lstat(os.path.join(root, n))
            out[os.path.relpath(os.path.join(root, n), p)] = (s.st_ino, s.st_mtime_ns, s.st_mode)
    return out


def run_case(case, w):
    x = World(w, case)
    rng = w.rng
    for step in range(case['steps']):
        if rng.random() < .15:
            x.environment()
        one(w, rng, x)


def one(w, rng, x):
    u, ws = x.u, x.ws
    rs = x.records()
    before = ws_inputs(ws)
    loaded = {n for n in before if os.path.isdir(os.path.join(ws, 'input', n))}
    state = stamps(ws)
    cwd = rng.choice([ws, os.path.join(ws, 'output')])
    command = rng.choice(['add', 'add', 'edit', 'update', 'update', 'update', 'next', 'next', 'prev', 'prev', 'rename', 'all', 'both', 'unload', 'delete'])
    if not before and command not in ('add', 'edit'):
        command = 'add'
    nick = rng.choice(sorted(before)) if before else None
    limited = rng.random() < .5 and command not in ('next', 'prev')
    t, t_text = x.limit(rs)
    time = [rng.choice(['-t', '--time']), t_text] if limited else []
    at_most = lambda l: [r for r in l if not limited or r.instant <= t]
    info = dict(command=command, nick=nick, limit=t_text if limited else None, record=before.get(nick))

    if command == 'unload':
        u.must('input', 'unload', '--', nick, cwd=cwd)
        return
    if command == 'delete':
        if len(before) > 1:
            u.must('input', 'delete', '--', nick, cwd=cwd)
        return
    w.count('selections')
    if limited:
        w.count('limited')
    if command == 'all':
        update_all(w, x, rs, before, loaded, state, cwd, time, at_most, info)
        return

    refused = False
    if command in ('add', 'edit', 'rename'):
        name = rng.choice(x.names + ['nothing'] if rng.random() < .8 else x.names)
        info['name'] = name
        w.count('by_name')
        pool = [r for r in rs if r.name == name]
        want = newest(at_most(pool))
    else:
        w.count('by_kind')
        kind, cid, ts = before[nick]
        pool = [r for r in rs if r.kind == kind]
        here = beadfile.instant(ts)
        if command == 'next':
            want = oldest([r for r in pool if r.instant > here])
        elif command == 'prev':
            want = newest([r for r in pool if r.instant < here])
        elif command == 'both':
            want, refused = [], True
            w.count('refused')
        else:
            want = newest(at_most(pool))
        if command in ('next', 'prev'):
            w.count('next_prev')
    if len({r.box_name for r in pool}) > 1:
        w.count('across_boxes')
    info['want'] = [r.path for r in want]
    distance = None if not limited else sum(r.instant <= t for r in pool)
    if command == 'edit':
        x.edits += 1
        target = os.path.join(x.work, f'e{x.edits}')
        r = u.bead('edit', *time, *(['--review'] if rng.random() < .5 else []), '--', name, target, cwd=x.work)
        check_edit(w, x, r, target, want, info)
        w.seen('choice', [command, distance, len(pool), len(want), r.ok])
        w.check(stamps(ws) == state, 'edit touched another workspace', **info)
        return
    if command == 'add':
        fresh = [n for n in ('a', 'b', 'c', 'd e') if n not in before]
        nick = info['nick'] = rng.choice(fresh) if fresh and rng.random() < .8 else name
        if nick in before:
            # the outcome of adding over an existing one is not part of this
            return
        args = ['add', *time, '--', nick] + ([] if nick == name else [name])
    elif command == 'rename':
        args = ['update', *time, '--', nick, name]
    elif command == 'update':
        args = ['update', *time, '--', nick]
    elif command == 'next':
        args = ['update', rng.choice(['-N', '--next']), '--', nick]
    elif command == 'prev':
        args = ['update', rng.choice(['-P', '--prev', '--previous']), '--', nick]
    else:
        opts = rng.choice([['-N', '-t', t_text], ['-t', t_text, '--prev']])
        args = ['update', *opts, '--', nick]
    r = u.bead('input', *args, cwd=cwd)
    info['result'] = repr(r)
    after = ws_inputs(ws)
    w.seen('choice', [command, distance, len(pool), len(want), r.ok])
    if not want:
        if not refused:
            w.count('not_found')
        w.check(r.refused and r.err, 'nothing to select, but the command was not refused', **info)
        w.check(after == before and stamps(ws) == state, 'nothing to select, but something changed', after=after.get(nick), **info)
        return
    w.check(r.ok, 'there is a bead to select, but the command failed', _stop=True, tb=(r.tb or '')[-1500:], **info)
    w.count('selected')
    got = after.get(nick)
    w.check(got in [triple(b) for b in want], 'another bead was selected', got=got, **info)
    check_loaded(w, x, nick, got, info)
    w.check({n: v for n, v in after.items() if n != nick} == {n: v for n, v in before.items() if n != nick}, 'another input changed', **info)
    now = stamps(ws)
    other = lambda s: {k: v for k, v in s.items() if k.startswith('input/') and not (k + '/').startswith(f'input/{nick}/')}
    w.check(other(state) == other(now), 'data of another input changed', **info)
    if nick in loaded and all(triple(b) == before[nick] for b in want):
        w.count('left_alone')
        w.check(now == state, 'input at the selected version was not left alone', **info)
    if len(want) == 1 and len(pool) > 3:
        w.sample(dict(command=args, selected=want[0].path, among=len(pool)))


def check_loaded(w, x, nick, record, info):
    bf = x.by_cid.get(record[1]) if record else None
    if bf is None:
        w.violate('selected bead is none of those that ever existed', nick=nick, **info)
    p = os.path.join(x.ws, 'input', nick)
    w.check(os.path.isdir(p), 'selected version is not loaded', **info)
    d = snap.diff_files(bf.data, input_tree(x.ws, nick))
    w.check(not d, 'data of another version is loaded', diff=d, **info)


def check_edit(w, x, r, target, want, info):
    info = dict(info, result=repr(r))
    if not want:
        w.count('not_found')
        w.check(r.refused and r.err, 'nothing to select, but edit was not refused', **info)
        w.check(not os.path.lexists(target), 'nothing to select, but edit created something', **info)
        return
    w.check(r.ok, 'there is a bead to select, but edit failed', _stop=True, tb=(r.tb or '')[-1500:], **info)
    w.count('selected')
    code, out = ws_trees(target)
    w.check(any(code == b.code for b in want), 'edit selected another bead', **info)


def update_all(w, x, rs, before, loaded, state, cwd, time, at_most, info):
    w.count('all_inputs')
    r = x.u.bead('input', 'update', *time, cwd=cwd)
    info['result'] = repr(r)
    w.check(r.ok, 'update of all inputs failed', _stop=True, tb=(r.tb or '')[-1500:], **info)
    after = ws_inputs(x.ws)
    w.check(set(after) == set(before), 'set of inputs changed', **info)
    now = stamps(x.ws)
    part = lambda s, n: {k: v for k, v in s.items() if (k + '/').startswith(f'input/{n}/')}
    found = []
    changed = False
    for n, (kind, cid, ts) in before.items():
        pool = [b for b in rs if b.kind == kind]
        want = newest(at_most(pool))
        if not want:
            w.count('not_found')
            w.check(after[n] == before[n] and part(state, n) == part(now, n), 'nothing to select for an input, but it changed', input=n, **info)
            w.check(f'"{n}"' in r.text, 'an input could not be updated without saying so', input=n, **info)
            found.append(0)
            continue
        found.append(len(want))
        w.count('selected')
        w.check(after[n] in [triple(b) for b in want], 'another bead was selected', input=n, got=after[n], want=[b.path for b in want], **info)
        check_loaded(w, x, n, after[n], info)
        if n in loaded and all(triple(b) == before[n] for b in want):
            w.count('left_alone')
            w.check(part(state, n) == part(now, n), 'input at the selected version was not left alone', input=n, **info)
        else:
            changed = True
    if not changed:
        w.check(state == now, 'nothing to update, but something changed', **info)
    w.seen('choice', ['all', info['limit'] is not None, sorted(found), len(loaded)])

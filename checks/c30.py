import os
import shutil
import stat

from bead.box import Box, search
from bead.tech.fs import Path

from harness import audit, beadfile, faults, gen, snap
from harness.cli import User, zips
from harness.query import Population, attempt, build, describe, key, random_query, ref_key
from harness.runner import force_rmtree
from harness.world import box_records, input_tree, put_bead, ws_inputs, ws_trees

PROPERTY = 'C30'
LEVEL = 'exploration'
RULE = ('(a) shared cases: a box (indexed or not) is offered to new users in many ways: made read only, copied, moved, linked, in directories with hostile names, and all its '
        'answers (library queries, edit, input add, web) are compared with independently parsed archives, while nothing may be written into it (monitored online and by '
        'comparison), and saving into what is read only has to be refused without any effect; '
        '(b) unreachable cases: one of three boxes is made unreachable in one of many ways and every command is run for the user and for a second user not having that box, '
        'their effects are compared, then the box is restored; non-trivial = distinct (way, index, operation, result)')
REQUIRED = {'shared_boxes': 250, 'queries': 4000, 'found': 3000, 'archives_used': 500, 'read_only_boxes': 40, 'refused_saves': 120, 'unreachable': 90, 'compared_commands': 1500,
            'restored': 90, '#way': 20, '#state': 500}

PLACES = ['plain', 'a b', '50%', '%41', 'q?mode=rwc', 'h#x', 'ünï', "it's", '[a]', '*', 'a;b', 'a&b=c', ':memory:', 'file:x', '+', '~', 'new\nline', 'und\udcff', '%', '%zz', '.hidden', '日本', 'back\\slash', '"']
WAYS = ['read only', 'read only', 'read only files', 'read only index', 'copied', 'copied, new times', 'moved', 'linked', 'linked parent', 'link chain', 'other case of .']
UNREACHABLE = ['missing', 'missing parent', 'no access', 'no access to parent', 'list only', 'file', 'dangling link', 'link loop', 'index directory', 'index unreadable', 'archives unreadable', 'index link loop', 'file as parent']


def plan(tier, rng):
    n = 30 if tier == 'quick' else 400
    cases = [dict(what='shared', index=('plain', 'indexed')[i % 2], beads=[3, 8, 20][i % 3]) for i in range(2 * n)]
    cases += [dict(what='unreachable', way=UNREACHABLE[i % len(UNREACHABLE)], index=('plain', 'indexed')[i // len(UNREACHABLE) % 2]) for i in range(4 * n)]
    return cases


def run_case(case, w):
    {'shared': shared, 'unreachable': unreachable}[case['what']](case, w)


# ---- (a)

def protect(top, files=True, dirs=True):
    for d, ds, fs in os.walk(top):
        for f in fs if files else []:
            os.chmod(os.path.join(d, f), 0o444)
        if dirs:
            os.chmod(d, 0o555)


def shared(case, w):
    rng = w.rng
    owner = User(w, 'owner')
    box = owner.add_box('box', rng.choice(PLACES) + 'box')
    if case['index'] == 'indexed' and rng.random() < .5:
        owner.must('box', 'index')
    pop = Population(w, {'box': box}, case['beads'], rich=False)
    ws = owner.path('ws-of-owner')
    owner.must('new', ws)
    gen.write_tree(ws, {'src': b's', 'output/o': b'o'})
    owner.must('save', cwd=ws)
    if pop.files() and rng.random() < .6:
        owner.must('input', 'add', 'x', rng.choice(pop.files()), cwd=ws)
        owner.must('save', cwd=ws)
    if case['index'] == 'indexed':
        owner.must('box', 'index')
    if rng.random() < .4:
        with open(os.path.join(box, 'not a bead.zip'), 'w') as f:
            f.write('x')
    records = box_records(box, 'box')
    w.check(len(records) >= 1, 'the owner has no beads in the box')
    for i, way in enumerate(rng.sample(WAYS, 6)):
        if way == 'moved':
            continue
        offer(w, case, pop, box, records, way, i)
    offer(w, case, pop, box, records, 'moved', 9)


def offer(w, case, pop, box, records, way, i):
    '''the box for a new user'''
    rng = w.rng
    u = User(w, f'user{i}')
    place = u.path(rng.choice(PLACES), rng.choice(PLACES) + '-')
    os.makedirs(os.path.dirname(place), exist_ok=True)
    if way == 'moved':
        os.rename(box, place)
        there = place
    elif way in ('copied', 'read only', 'read only files', 'read only index'):
        shutil.copytree(box, place)
        there = place
    elif way == 'copied, new times':
        shutil.copytree(box, place, copy_function=shutil.copyfile)
        there = place
    elif way == 'linked':
        os.symlink(box if rng.random() < .5 else os.path.relpath(box, os.path.dirname(place)), place)
        there = place
    elif way == 'linked parent':
        os.symlink(os.path.dirname(box), place)
        there = os.path.join(place, os.path.basename(box))
    elif way == 'link chain':
        os.symlink(box, place + 'x')
        os.symlink(os.path.basename(place) + 'x', place)
        there = place
    else:
        there = os.path.join(os.path.dirname(box), '.', os.path.basename(box), '..', os.path.basename(box))
    if way == 'read only':
        protect(place)
    elif way == 'read only files':
        protect(place, dirs=False)
    elif way == 'read only index' and case['index'] == 'indexed':
        os.chmod(os.path.join(place, '.index.sqlite'), 0o444)
    if way == 'read only':
        w.count('read_only_boxes')
    w.count('shared_boxes')
    name = rng.choice(['box', 'mine', 'a b'])
    try:
        before = snap.snapshot(there, mtimes=True)
        with audit.watch(fence=w.dir) as log:
            use(w, case, u, pop, name, there, records, way)
        after = snap.snapshot(there, mtimes=True)
        w.check(before == after, 'using a box changed it', way=way, diff=snap.diff(before, after))
        real = os.path.realpath(there)
        inside = [x for x in log if x[0] != 'sqlite3.connect' and (x[1] == real or x[1].startswith(real + '/') or x[1] == there or x[1].startswith(there + '/'))]
        w.check(not inside, 'using a box modified something in it', way=way, log=inside[:4])
        save_into(w, case, u, pop, name, there, records, way)
    finally:
        if way.startswith('read only'):
            os.chmod(place, 0o755)


def use(w, case, u, pop, name, there, records, way):
    rng = w.rng
    info = dict(way=way, index=case['index'], place=there)
    if rng.random() < .5:
        u.must('box', 'add', name, there)
    else:
        u.must('box', 'add', name, os.path.basename(there), cwd=os.path.dirname(there))
    want_all = sorted((name, *ref_key(b)[1:]) for b in records)

    def box():
        return Box(name, Path(rng.choice([there, os.path.realpath(there)])))
    found = sorted(map(key, search([box()]).all()))
    w.check(found == want_all, 'beads of the box differ', missing=[x[:3] for x in want_all if x not in found][:3], extra=[x[:3] for x in found if x not in want_all][:3], **info)
    w.count('found', len(found))
    for _ in range(16):
        q = random_query(rng, pop, records)
        want = sorted((name, *ref_key(b)[1:]) for b in records if all(p(b) for _, _, p in q))
        got = sorted(map(key, build(search([box()]), q).all()))
        w.count('queries')
        w.check(got == want, 'a query has another answer', query=describe(q), got=len(got), want=len(want), **info)
        w.seen('state', ['query', way, case['index'], len(q), len(want)])
    # what is found can be used
    for found in rng.sample(search([box()]).all(), min(3, len(records))):
        kind, a = attempt(box().resolve, found)
        bf = [b for b in records if b.content_id == found.content_id and b.name == found.name]
        if w.check(kind == 'ok' and bf, 'a found bead can not be used', bead=str(found.name), error=repr(a), **info):
            a.validate()
            w.check(a.content_id == found.content_id and beadfile.spec_inputs(a.inputs) == beadfile.normal_inputs(bf[0].inputs), 'another archive is used', **info)
            w.count('archives_used')
    newest = {}
    for b in records:
        newest.setdefault(b.name, []).append(b)
    usable = [n for n in newest if not n.startswith('-') and '\n' not in n and not n.endswith('.zip') and n not in ('.', '..') and not os.path.exists(u.path(n))]
    for n in rng.sample(sorted(usable), min(2, len(usable))):
        top = max(b.instant for b in newest[n])
        good = [b for b in newest[n] if b.instant == top]
        ws = u.path(f'edited{rng.randrange(10 ** 9)}')
        u.must('edit', n, ws)
        w.check(any(ws_trees(ws)[0] == b.code for b in good), 'another bead is opened', name=n, **info)
        u.must('input', 'add', 'nick', n, cwd=ws)
        rec = ws_inputs(ws)['nick']
        w.check(any(rec[1] == b.content_id and input_tree(ws, 'nick') == b.data for b in good), 'another bead is loaded', name=n, **info)
        u.must('input', 'unload', 'nick', cwd=ws)
        u.must('input', 'load', 'nick', cwd=ws)
        u.must('status', cwd=ws)
        u.must('input', 'update', 'nick', cwd=ws)
        w.count('archives_used', 2)
    u.must('web', 'color', 'save', u.path('all.web'))
    from harness import webs
    got = {g[0][:2] for g in webs.read_web(u.path('all.web')) if g[2] != 'PHANTOM'}
    w.check(got == {(b.name, b.content_id) for b in records}, 'web differs', **info)
    w.seen('way', [way, case['index']])


def save_into(w, case, u, pop, name, there, records, way):
    rng = w.rng
    info = dict(way=way, index=case['index'], place=there)
    ws = u.path('saved-ws')
    u.must('new', ws)
    gen.write_tree(ws, {'src': b's', 'output/o': rng.randbytes(9)})
    real = os.path.realpath(there)
    before = snap.snapshot(ws), snap.snapshot(real)
    if way == 'read only':
        for argv in (['save'], ['save', name], ['box', 'index'], ['box', 'reindex', '--box', name], ['box', 'index', '--dir', there]):
            r = u.bead(*argv, cwd=ws)
            w.check(r.crash is None, 'internal error in a read only box', argv=argv, result=repr(r), tb=(r.tb or '')[-1500:], **info)
            if argv[0] == 'save':
                w.check(r.refused and 'ERROR' in r.text, 'saving into a read only box is not refused', result=repr(r), **info)
                w.count('refused_saves')
            after = snap.snapshot(ws), snap.snapshot(real)
            w.check(before == after, 'a refused command changed something', argv=argv, diff=snap.diff(before[0], after[0]) + snap.diff(before[1], after[1]), **info)
        os.chmod(real, 0o755)
        p = os.path.join(real, '.index.sqlite')
        if os.path.exists(p):
            os.chmod(p, 0o644)
    elif way in ('linked', 'linked parent', 'link chain', 'other case of .', 'moved'):
        # the box of the others
        return
    u.must('save', cwd=ws)
    now = box_records(real, name)
    mine = [b for b in now if b.name == 'saved-ws']
    w.check(len(mine) == 1 and len(now) == len(records) + 1 and not mine[0].problems, 'the saved bead is not in the box', **info)
    got = {(str(b.name), b.content_id) for b in search([Box(name, Path(there))]).all()}
    all_now = {(b.name, b.content_id) for b in now}
    if way in ('read only index', 'read only files') and case['index'] == 'indexed':
        w.check({(b.name, b.content_id) for b in records} <= got <= all_now, 'beads are lost after a save', **info)
    else:
        w.check(got == all_now, 'beads of the box differ after a save', missing=sorted(all_now - got), **info)


# ---- (b)

class Pair:
    '''two users doing the same; only the first one has the unreachable box'''

    def __init__(self, case, w):
        self.w = w
        rng = w.rng
        self.top = top = User(w, 'world')
        self.dirs = {n: top.mkdir('boxes', n, 'box') for n in ('good1', 'bad', 'good2')}
        self.a, self.b = User(w, 'world'), User(w, 'world')
        self.users = [self.a, self.b]
        for i, x in enumerate(self.users):
            x.home = top.mkdir(f'home{i}')
            x.config = os.path.join(x.home, '.config', 'bead')
            x.work = top.mkdir(f'work{i}')
        order = rng.sample(list(self.dirs), 3)
        for n in order:
            self.a.must('box', 'add', n, self.dirs[n])
            if n != 'bad':
                self.b.must('box', 'add', n, self.dirs[n])
        self.t = 1_500_000_000_000_000
        self.names = rng.sample([n for n in gen.BEAD_NAMES if '__' not in n and n[0] not in '-.'], 3)
        self.beads = {n: [] for n in self.dirs}
        for i in range(9):
            n = ('good1', 'bad', 'good2')[i % 3]
            name = rng.choice(self.names)
            ins = {}
            known = [b for bs in self.beads.values() for b in bs]
            if known and rng.random() < .5:
                b = rng.choice(known)
                ins = {b.name: (b.kind, b.content_id, b.freeze_time_str)}
            self.beads[n].append(put_bead(self.dirs[n], rng, name, kind='kind ' + name, instant=self.t + i * 10 ** 9 + rng.randrange(10 ** 8), inputs=ins,
                                          data=gen.gen_tree(rng, n=rng.choice([1, 2]))))
        if case['index'] == 'indexed':
            self.a.must('box', 'index', '--all')
        for x in self.users:
            x.ws = os.path.join(x.work, 'ws')
            x.must('new', x.ws)
            gen.write_tree(x.ws, {'src': b's', 'output/o': b'o'})
        for i, n in enumerate(self.beads):
            self.both(['input', 'add', '--', f'in {n}', rng.choice(self.beads[n]).path])
            if rng.random() < .5:
                self.both(['input', 'unload', '--', f'in {n}'])

    def both(self, argv, place='ws', must=True, compare=True):
        '''the same command by both of them'''
        w = self.w
        rs = []
        for x in self.users:
            cwd = x.ws if place == 'ws' else x.work
            r = x.bead(*argv, cwd=cwd)
            w.check(r.crash is None, 'internal error when a box is unreachable', way=self.way, argv=argv, result=repr(r), tb=(r.tb or '')[-1800:])
            rs.append(r)
        if compare:
            w.count('compared_commands')
            strip = lambda r: r.code
            w.check(strip(rs[0]) == strip(rs[1]), 'an unreachable box changes the result of a command', way=self.way, argv=argv, with_it=repr(rs[0]), without=repr(rs[1]))
            s = [snap.snapshot(x.work, skip=()) for x in self.users]
            s = [{k: v for k, v in x.items() if not k.endswith('.web')} for x in s]
            # (every workspace has a kind of its own)
            s = [{k: (v if not k.endswith('.bead-meta/bead') else None) for k, v in x.items()} for x in s]
            w.check(s[0] == s[1], 'an unreachable box changes the effect of a command', way=self.way, argv=argv, diff=snap.diff(s[1], s[0]))
            w.check(ws_inputs(self.a.ws) == ws_inputs(self.b.ws), 'an unreachable box changes the effect of a command on inputs', way=self.way, argv=argv,
                    with_it=ws_inputs(self.a.ws), without=ws_inputs(self.b.ws))
            w.seen('state', [self.way, argv[:2], rs[0].code, len(s[0])])
        return rs

    way = None


def make_unreachable(way, d, rng):
    '''returns a function, that restores it'''
    parent = os.path.dirname(d)
    index = os.path.join(d, '.index.sqlite')

    def mode(p, m):
        old = stat.S_IMODE(os.lstat(p).st_mode)
        os.chmod(p, m)
        return lambda: os.chmod(p, old)

    def away(p, put=lambda p: None, remove=os.unlink):
        os.rename(p, p + '.away')
        put(p)

        def back():
            if os.path.lexists(p):
                remove(p)
            os.rename(p + '.away', p)
        return back
    if way == 'missing':
        return away(d)
    if way == 'missing parent':
        return away(parent)
    if way == 'no access':
        return mode(d, 0)
    if way == 'no access to parent':
        return mode(parent, rng.choice([0, 0o444]))
    if way == 'list only':
        return mode(d, 0o444)
    if way in ('file', 'file as parent'):
        def put(p):
            with open(p, 'w') as f:
                f.write('x')
        return away(d if way == 'file' else parent, put)
    if way == 'dangling link':
        return away(d, lambda p: os.symlink('nowhere', p))
    if way == 'link loop':
        return away(d, lambda p: os.symlink(os.path.basename(p), p))
    if way == 'archives unreadable':
        backs = [mode(os.path.join(d, n), 0) for n in os.listdir(d)]
        return lambda: [b() for b in backs]
    if not os.path.exists(index):
        # an index, that can not be used
        make = {'index directory': lambda: os.mkdir(index), 'index unreadable': lambda: os.close(os.open(index, os.O_CREAT, 0)), 'index link loop': lambda: os.symlink('.index.sqlite', index)}[way]
        make()
        return lambda: os.rmdir(index) if os.path.isdir(index) and not os.path.islink(index) else os.unlink(index)
    if way == 'index directory':
        return away(index, os.mkdir, os.rmdir)
    if way == 'index link loop':
        return away(index, lambda p: os.symlink(os.path.basename(p), p))
    return mode(index, 0)


def unreachable(case, w):
    rng = w.rng
    p = Pair(case, w)
    way = p.way = case['way']
    restore = make_unreachable(way, p.dirs['bad'], rng)
    w.count('unreachable')
    w.seen('way', [way, case['index']])
    # a broken link instead of an index is no index
    plain = (way == 'index link loop')
    try:
        if plain:
            listing(w, p)
            for argv in (['status'], ['input', 'update'], ['web', 'color', 'save', 'x.web'], ['input', 'load']):
                p.both(argv, compare=False)
        else:
            everything(w, p, case)
    finally:
        restore()
    # everything is there again
    w.count('restored')
    p.a.must('status', cwd=p.a.ws)
    known = box_records(p.dirs['bad'], 'bad')
    # (an index made while the archives could not be read lacks them)
    complete = not any(x.endswith('.sqlite') for x in os.listdir(p.dirs['bad'])) or case['index'] == 'indexed'
    if complete:
        got = {(str(b.name), b.content_id) for b in search([Box('bad', Path(p.dirs['bad']))]).all()}
        w.check({(b.name, b.content_id) for b in p.beads['bad']} <= got, 'beads are lost by being unreachable', way=way)
    if complete and 'bad' in p.a.must('box', 'list').out:
        b = rng.choice(p.beads['bad'])
        newest = max((x for x in known + [y for n in ('good1', 'good2') for y in box_records(p.dirs[n])] if x.name == b.name), key=lambda x: x.instant)
        t = p.a.path('opened')
        p.a.must('edit', '--', b.name, t)
        w.check(ws_trees(t)[0] == newest.code, 'after the box is available another bead is opened', way=way, name=b.name)
    w.sample(dict(way=way, index=case['index'], beads=len(known)))


def listing(w, p):
    r = p.a.must('box', 'list')
    for n, d in p.dirs.items():
        w.check(f'{n}: {d}' in r.out, 'a box is not listed', box=n, out=r.out)


def everything(w, p, case):
    rng = w.rng
    way = p.way
    listing(w, p)
    todo = []
    for i, name in enumerate(p.names):
        times = rng.choice([[], ['-t', beadfile.ts_from_instant(p.t + 4_500_000_000)]])
        todo += [(['edit', *times, '--', name, f'new{i}'], 'work'), (['edit', '--review', '--', name, f'review{i}'], 'work'), (['input', 'add', *times, '--', f'by name {i}', name], 'ws')]
    todo += [(['status'], 'ws'), (['status', '-v'], 'ws'), (['input', 'load'], 'ws'), (['input', 'update'], 'ws'), (['input', 'unload', '--', 'by name 1'], 'ws'),
             (['input', 'load', '--', 'by name 1'], 'ws'), (['web', 'color', 'save', 'x.web'], 'work'), (['input', 'update', '--', 'in bad', p.names[0]], 'ws'),
             (['input', 'update', '--prev', '--', 'in good1'], 'ws'), (['input', 'update', '--next', '--', 'in good2'], 'ws'), (['input', 'load', '--', 'in bad'], 'ws'),
             (['new', 'another'], 'work'), (['discard', 'another'], 'work'), (['input', 'delete', '--', 'in bad'], 'ws')]
    head, tail = todo[:9], todo[9:]
    rng.shuffle(head)
    if rng.random() < .5:
        rng.shuffle(tail)
    for argv, place in head + tail:
        p.both(argv, place)
    # webs are the same
    from harness import webs
    got = [sorted(map(repr, webs.read_web(os.path.join(x.work, 'x.web')))) for x in p.users]
    w.check(got[0] == got[1], 'an unreachable box changes the web', way=way, diff=[x for x in got[0] if x not in got[1]][:2] + [x for x in got[1] if x not in got[0]][:2])
    # saving
    tree = lambda: (snap.snapshot(p.a.work), snap.snapshot(p.top.path('boxes')))
    before = tree()
    r = p.a.bead('save', 'bad', cwd=p.a.ws)
    w.check(r.crash is None, 'internal error in an unreachable box', way=way, result=repr(r), tb=(r.tb or '')[-1500:])
    reachable = way in ('index directory', 'index unreadable', 'archives unreadable')
    if not reachable:
        w.check(r.refused, 'saving into an unreachable box is not refused', way=way, result=repr(r))
        after = tree()
        w.check(before == after, 'refused save changed something', way=way, diff=snap.diff(before[1], after[1]) + snap.diff(before[0], after[0]))
        w.count('refused_saves')
    target = rng.choice(['good1', 'good2'])
    n = len(zips(p.dirs[target]))
    p.a.must('save', target, cwd=p.a.ws)
    w.check(len(zips(p.dirs[target])) == n + 1, 'saved bead is not there', way=way)
    # indexing
    for argv in (['box', rng.choice(['index', 'reindex']), '--all'], ['box', 'index', '--box', target], ['box', rng.choice(['index', 'reindex']), '--box', 'bad']):
        if way == 'archives unreadable' and argv[1] == 'reindex':
            continue
        r = p.a.bead(*argv, cwd=p.a.work)
        w.check(r.crash is None, 'internal error in an unreachable box', way=way, argv=argv, result=repr(r), tb=(r.tb or '')[-1500:])
        if 'bad' in argv and not reachable:
            w.check('Failed' in r.text or 'ERROR' in r.text, 'failure is not reported', way=way, argv=argv, result=repr(r))
    records = [b for n in ('good1', 'good2') for b in box_records(p.dirs[n], n)]
    got = sorted(map(key, search([Box(n, Path(p.dirs[n])) for n in ('good1', 'good2')]).all()))
    w.check(got == sorted(map(ref_key, records)), 'beads of other boxes are not found', way=way)
    # definitions of others can be changed
    fresh = p.top.path('boxes', f'fresh{rng.randrange(10 ** 9)}')
    os.mkdir(fresh)
    p.a.must('box', 'add', 'fresh', fresh)
    listing(w, p)
    p.a.must('box', 'forget', 'fresh')
    listing(w, p)
    # its definition can be handled
    r = p.a.bead('box', 'add', 'again', p.dirs['bad'])
    w.check(r.crash is None, 'internal error in an unreachable box', way=way, result=repr(r), tb=(r.tb or '')[-1500:])
    r = p.a.bead('box', 'add', 'bad', p.a.work)
    w.check(r.crash is None and 'ERROR' in r.text, 'name of an unreachable box is given to another one', way=way, result=repr(r))
    if rng.random() < .5:
        p.a.must('box', 'forget', 'bad')
        out = p.a.must('box', 'list').out
        w.check('bad' not in out and 'good1' in out and 'good2' in out, 'wrong box is forgotten', way=way, out=out)
        if rng.random() < .5:
            p.a.must('box', 'forget', 'again')

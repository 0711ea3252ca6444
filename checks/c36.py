'''
Archives are opened only when they are needed: opened files are recorded by the audit monitor during commands.
'''
import os
import sys
from collections import Counter

from bead.box import Box, search
from bead.tech.fs import Path
import bead.zipopener

from harness import beadfile, gen
from harness.cli import User, zips
from harness.query import NAME_FAMILIES, Population, build, describe, random_query, ref_key, key
from harness.world import box_records, is_valid_ws, put_bead, random_inputs, ws_inputs, ws_meta

PROPERTY = 'C36'
LEVEL = 'exploration'
RULE = ('one case = a random history of all commands over boxes, all, some or none of them indexed, with beads of similar names appearing in between; the archives opened during each command '
        '(interpreter audit events) are compared with those that are needed for it according to the state read independently before and after; '
        'non-trivial = distinct (command, outcome, kinds of boxes, number opened) tuples')
REQUIRED = {'commands_watched': 3000, 'opened': 2500, 'opened_indexed': 1000, 'none_opened': 1000, 'one_opened': 400, 'index_runs': 150, 'index_new': 80, 'deleted': 60, 'index_kept': 1200, 'scans': 300, 'queries': 1500,
            'named_in_plain': 100, 'not_opened_in_plain': 800, 'few': 1200, '#state': 150}
ASSUMPTIONS = ['archives are files opened through the interpreter (audit event "open")']

FEW = 10    # archives kept open by a command


def plan(tier, rng):
    n = 120 if tier == 'quick' else 2400
    return [dict(boxes=i % 3 + 1, indexed=['all', 'all', 'some', 'none'][i % 4], beads=[4, 8, 14, 30][i // 4 % 4], steps=40) for i in range(n)]


class Opened:
    on, paths, installed = False, [], False

    @classmethod
    def hook(cls, event, args):
        if event == 'open' and cls.on and isinstance(args[0], (str, bytes, os.PathLike)) and not (isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_CREAT)):
            p = os.fsdecode(args[0])
            if p.endswith('.zip'):
                cls.paths.append(os.path.realpath(p))


def setup_worker(w):
    if not Opened.installed:
        sys.addaudithook(Opened.hook)
        Opened.installed = True


def watched(f):
    Opened.paths = []
    Opened.on = True
    try:
        return f(), Counter(Opened.paths)
    finally:
        Opened.on = False


class World:
    def __init__(self, case, w):
        self.w, self.rng = w, w.rng
        rng = w.rng
        self.u = User(w)
        self.dirs = {}
        for i in range(case['boxes']):
            self.dirs[f'b{i}'] = os.path.realpath(self.u.mkdir(rng.choice(['box', 'b x', 'ünï', 'b*']) + str(i)))
            self.u.must('box', 'add', f'b{i}', self.dirs[f'b{i}'])
        self.names = rng.choice([f for f in NAME_FAMILIES if not any('\n' in n or n == '--' or '.zip' in n for n in f)])
        self.kinds = rng.sample(gen.KINDS, 3)
        self.start = gen.gen_instant(rng)
        self.serial = 0
        self.plain = case['indexed'] == 'none'
        self.pending = {d: set() for d in self.dirs.values()}
        self.indexed = set()
        for _ in range(case['beads']):
            self.put()
        for n, d in self.dirs.items():
            if case['indexed'] == 'all' or case['indexed'] == 'some' and rng.random() < .5:
                self.u.must('box', 'index', '--box', n)
                if os.path.exists(os.path.join(d, '.index.sqlite')):
                    self.indexed.add(d)
                    self.pending[d] = set()
        self.ws = self.u.path('ws')
        self.u.must('new', self.ws)
        self.nicks = rng.sample(['a', 'b', 'c', *[n for n in self.names if n.strip('.') and '/' not in n and '__' not in n and not n.startswith('-')]], 4)

    def put(self):
        rng = self.rng
        d = rng.choice(list(self.dirs.values()))
        self.serial += 1
        bf = put_bead(d, rng, rng.choice(self.names), instant=self.start - self.serial * 10 ** 6, offset=rng.choice(gen.OFFSETS), kind=rng.choice(self.kinds),
                      code={'c': b'%d' % self.serial}, data={'d': b'%d' % self.serial}, inputs=random_inputs(rng))
        self.pending[d].add(bf.path)

    def some_boxes(self):
        box = self.rng.choice(list(self.dirs))
        form = self.rng.choice([['--all'], ['--box', box], ['--dir', self.dirs[box]]])
        return form, set(self.dirs.values()) if form == ['--all'] else {self.dirs[box]}

    def all(self):
        return {os.path.join(d, n) for d in self.dirs.values() for n in zips(d)}

    def by_content(self, ids):
        return {bf.path for d in self.dirs.values() for bf in box_records(d) if bf.content_id in ids}


def state(world):
    ws = world.ws
    rec = ws_inputs(ws)
    return rec, {n for n in rec if os.path.isdir(os.path.join(ws, 'input', n))}


def step(world):
    w, rng, u = world.w, world.rng, world.u
    op = rng.choice(['add', 'add', 'add', 'update', 'update', 'step', 'update all', 'load', 'load all', 'unload', 'delete', 'status', 'status', 'web', 'web', 'edit', 'edit', 'edit file', 'save', 'save',
                     'index', 'index', 'reindex', 'new', 'box', 'put', 'put', 'put', 'put'])
    if world.plain and op in ('index', 'reindex'):
        op = 'put'      # these boxes stay without index
    if op == 'put':
        world.put()
        return
    form, done = world.some_boxes()
    if op in ('index', 'reindex') and rng.random() < .3:
        # deleted archives are forgotten without looking at the others
        known = sorted(p for p in world.all() if os.path.dirname(p) in done & world.indexed and p not in world.pending[os.path.dirname(p)])
        for p in rng.sample(known, min(len(known) // 3, rng.choice([1, 1, 3]))):
            os.unlink(p)
            w.count('deleted')
    rec, loaded = state(world)
    before = world.all()
    name = rng.choice(world.names)
    nick = rng.choice(list(rec) or world.nicks)
    target = u.path(f'e{world.serial}-{rng.randrange(10 ** 9)}')
    when = ['-t', beadfile.ts_from_instant(world.start - rng.randrange(0, world.serial + 1) * 10 ** 6)] if rng.random() < .4 else []
    box = rng.choice(list(world.dirs))
    file = rng.choice(sorted(before))
    w_ = ['-w', world.ws]
    argv = {
        'add': ['input', 'add', *w_, *when, '--', rng.choice(world.nicks), name],
        'update': ['input', 'update', *w_, *when, '--', nick],
        'step': ['input', 'update', *w_, rng.choice(['--prev', '--next']), '--', nick],
        'update all': ['input', 'update', *w_, *when],
        'load': ['input', 'load', *w_, '--', nick], 'load all': ['input', 'load', *w_],
        'unload': ['input', 'unload', *w_, '--', nick], 'delete': ['input', 'delete', *w_, '--', nick],
        'status': ['status', *w_, *rng.choice([[], ['-v']])],
        'web': ['web', *rng.choice([['dot', u.path('w.dot')], ['color', 'save', u.path('w.web')], ['heads', 'dot', u.path('w.dot')], ['/', '..', '/', 'dot', u.path('w.dot')]])],
        'edit': ['edit', *when, *rng.choice([[], ['--review']]), '--', name, target],
        'edit file': ['edit', *rng.choice([[], ['--review']]), '--', file, target],
        'save': ['save', box, *w_], 'index': ['box', 'index', *form], 'reindex': ['box', 'reindex', *form],
        'new': ['new', target], 'box': ['box', *rng.choice([['list'], ['add', 'x', u.mkdir('other')], ['forget', 'x'], ['forget', 'nothing']])],
    }[op]
    if op == 'save':
        with open(os.path.join(world.ws, 'output', 'o'), 'wb') as f:
            f.write(b'%d' % rng.randrange(10 ** 9))
    r, opened = watched(lambda: u.bead(*argv))
    w.check(r.crash is None, 'internal error', argv=argv, tb=(r.tb or '')[-2000:])
    opened = Counter({p: n for p, n in opened.items() if os.path.dirname(p) in world.pending})
    rec2, loaded2 = state(world)
    after = world.all()
    info = dict(argv=argv, success=r.ok, out=r.text[-500:], indexed=sorted(os.path.basename(d) for d in world.indexed))
    w.count('commands_watched')
    w.count('opened', sum(opened.values()))

    # what is needed in boxes with an index, and in those without
    needed = set()
    if op in ('add', 'update', 'step'):
        which = argv[-2] if op == 'add' else nick
        ids = {i[1] for i in [rec2.get(which)] if i}
        needed = world.by_content(ids)
    elif op == 'update all':
        needed = world.by_content({i[1] for i in rec2.values()})
    elif op == 'load' and nick in rec and nick not in loaded:
        needed = world.by_content({rec[nick][1]})
    elif op == 'load all':
        needed = world.by_content({i[1] for n, i in rec.items() if n not in loaded})
    elif op == 'edit' and is_valid_ws(target):
        meta = ws_meta(target)
        code = open(os.path.join(target, 'c'), 'rb').read() if os.path.exists(os.path.join(target, 'c')) else None
        needed = {bf.path for d in world.dirs.values() for bf in box_records(d) if bf.kind == meta['kind'] and (code is None or bf.code.get('c') == code)}
    elif op == 'edit file':
        needed = {file}
    elif op == 'save':
        needed = after - before
    elif op in ('index', 'reindex'):
        needed = {p for d in done for p in (world.pending[d] if op == 'index' and d in world.indexed else (q for q in after if os.path.dirname(q) == d))}

    in_indexed = {p for p in opened if os.path.dirname(p) in world.indexed}
    w.count('opened_indexed', len(in_indexed))
    w.check(in_indexed <= needed, 'an archive is opened in an indexed box without need', opened=sorted(in_indexed - needed), **info)
    in_plain = set(opened) - in_indexed
    plain = {p for p in before if os.path.dirname(p) not in world.indexed}
    if op in ('unload', 'delete', 'new', 'box', 'edit file', 'save', 'index', 'reindex'):
        w.check(in_plain <= needed, 'an archive is opened in a box without need', opened=sorted(in_plain - needed), **info)
    elif op in ('add', 'edit'):
        w.count('named_in_plain', bool(in_plain))
        w.count('not_opened_in_plain', len(plain - in_plain))
        others = {p for p in in_plain if not os.path.basename(p).startswith(name)}
        w.check(not others, 'an archive of another name is opened', opened=sorted(others), **info)
    elif op == 'load' and nick in loaded:
        w.check(not in_plain, 'an archive is opened in a box without need', opened=sorted(in_plain), **info)
    if op in ('web', 'index', 'reindex'):
        w.count('scans')
        again = [p for p, n in opened.items() if n > 1]
        w.check(not again, 'an archive is opened more than once in a scan', opened=again, **info)
    if len(opened) <= FEW:
        w.count('few')
        again = [p for p, n in opened.items() if n > 1]
        w.check(not again, 'one of few archives is opened more than once', opened=again, total=len(opened), **info)
    w.count(['none_opened', 'one_opened'][len(opened)] if len(opened) < 2 else 'more_opened')

    if op in ('index', 'reindex'):
        w.check(r.ok, 'index run fails', **info)
        w.count('index_runs')
        for d in done:
            if op == 'index' and d in world.indexed:
                w.count('index_kept', len([q for q in after if os.path.dirname(q) == d]) - len(world.pending[d]))
                w.count('index_new', len(world.pending[d]))
            missed = {p for p in world.pending[d]} - set(opened)
            w.check(not missed, 'a new archive is not looked at', missed=sorted(missed), **info)
            if os.path.exists(os.path.join(d, '.index.sqlite')):
                world.indexed.add(d)
                world.pending[d] = set()
    w.seen('state', [op, r.ok, len(world.indexed), len(world.dirs) - len(world.indexed), min(len(opened), 20)])


def queries(world):
    '''searches themselves'''
    w, rng = world.w, world.rng
    pop = Population.__new__(Population)
    pop.w, pop.rng, pop.dirs, pop.names, pop.kinds, pop.instants = (
        w, rng, world.dirs, world.names, world.kinds, [world.start - i * 10 ** 6 for i in range(1, world.serial + 1)])
    pop.base = world.start
    records = [b for n, d in world.dirs.items() for b in box_records(d, n)]
    for n, d in world.dirs.items():
        here = [b for b in records if b.box_name == n]
        for _ in range(6):
            q = random_query(rng, pop, here or records)
            sel = rng.choice(['all', 'first', 'newest', 'oldest'])
            box = Box(n, Path(d))

            def ask():
                try:
                    r = getattr(build(box.search(), q), sel)()
                    return [key(b) for b in r] if sel == 'all' else [key(r)]
                except LookupError:
                    return []
            got, opened = watched(ask)
            bead.zipopener.close_all()
            w.count('queries')
            info = dict(query=describe(q), sel=sel, box=n, opened=dict(opened))
            pending = {p for p in world.pending[d]}
            want = {ref_key(b) for b in here if all(p(b) for _, _, p in q) and (d not in world.indexed or b.path not in pending)}
            w.check(set(got) <= want and bool(got) == bool(want) and (sel != 'all' or set(got) == want), 'wrong answer', got=got[:4], want=list(want)[:4], **info)
            if d in world.indexed:
                w.check(not opened, 'a search opens an archive of an indexed box', **info)
            else:
                w.check(all(c == 1 for c in opened.values()), 'a search opens an archive more than once', **info)
            w.seen('state', ['query', sel, d in world.indexed, sorted(m for m, _, _ in q), min(len(opened), 20)])


def run_case(case, w):
    world = World(case, w)
    for i in range(case['steps']):
        step(world)
        if i % 8 == 7:
            queries(world)
    w.sample(dict(boxes=len(world.dirs), indexed=len(world.indexed), archives=len(world.all())))

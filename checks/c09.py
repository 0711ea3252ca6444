import errno
import os
import shutil

from bead.box import Box
from bead.box_rawfs import RawFilesystemResolver
from bead.tech.fs import Path
import bead.zipopener

from harness import beadfile, faults, gen, snap
from harness.cli import User
from harness.query import Population, attempt, boxes_of, build, describe, key, random_query, ref_key, true_instant
from harness.runner import force_rmtree
from harness.world import box_records

PROPERTY = 'C09'
NEEDS_SHIM = True
LEVEL = 'fault_enumeration'
RULE = ('one case = a random history of saves, copies, deletions, renames and moves in boxes, with index and reindex runs, some of them killed, '
        'failed or interrupted at a chosen file system call and repeated; whenever the index has to be up to date random queries on the indexed box '
        'are compared with a scan and with independently parsed files, and every bead is resolved; '
        'non-trivial = distinct (step, number of beads, query shape, size of the answer) tuples')
REQUIRED = {'comparisons': 3000, 'resolved': 3000, 'index_runs': 250, 'saves': 100, 'large': 1200, 'interrupted_runs': 250, 'nonempty': 1500, '#state': 500}

BOX_DIRS = ['box', 'b x', 'b?x', 'b#x', 'b%41x', 'b[o]x', "b'x", 'b"x', 'bö x', 'b&x=1', 'b;x', 'b\\x', 'b*', 'file:box', ' b', '日本', 'b\nx', '%', 'b+x', '~b']


def plan(tier, rng):
    n = 96 if tier == 'quick' else 1500
    # the large ones are the longest
    return [dict(mode='large', boxes=1, steps=0, dir='box', size=size, points=0) for size in ([1100, 600] if tier == 'quick' else [1300, 600, 5000, 34000])] + [dict(mode='faults' if i % 4 == 3 else 'history', boxes=[1, 1, 2][i % 3], steps=16 if tier == 'quick' else 40,
                 dir=BOX_DIRS[i % len(BOX_DIRS)], points=24 if tier == 'quick' else 120) for i in range(n)]


class World:
    def __init__(self, case, w):
        self.w, rng = w, w.rng
        self.rng = rng
        self.root = os.path.join(w.dir, 'world')
        self.u = User(w, 'world')
        self.dirs = {}
        for i in range(case['boxes']):
            n = f'box{i}'
            self.dirs[n] = self.u.mkdir(case['dir'] if i == 0 else rng.choice(BOX_DIRS) + str(i))
            self.u.must('box', 'add', n, self.dirs[n])
        self.pop = Population(w, self.dirs, rng.choice([0, 1, 3, 6, 10]))
        self.used = {(d, f) for d in self.dirs.values() for f in os.listdir(d)}
        self.dirty = set(self.dirs)      # boxes whose index is not expected to be right
        self.ws = self.u.path('ws', rng.choice(self.pop.names).strip() or 'ws')
        os.makedirs(self.u.path('ws'))
        r = self.u.bead('new', self.ws)
        if not r.ok:
            self.ws = self.u.path('ws', 'plain-ws')
            self.u.must('new', self.ws)

    def name_of(self, directory):
        return next(n for n, d in self.dirs.items() if d == directory)

    def fresh(self, d, fn):
        '''file names are not reused with other content'''
        if (d, fn) in self.used:
            return False
        self.used.add((d, fn))
        return True

    # ---- environment steps
    def put(self):
        before = set(self.pop.files())
        bf = self.pop.put()
        if bf:
            d, fn = os.path.split(bf.path)
            if not self.fresh(d, fn):
                os.unlink(bf.path)  # such a file had been there
            self.dirty.add(self.name_of(d))

    def copy(self):
        p = self.pop.copy()
        if p:
            d, fn = os.path.split(p)
            if not self.fresh(d, fn):
                os.unlink(p)
            self.dirty.add(self.name_of(d))

    def delete(self):
        fs = self.pop.files()
        if fs:
            p = self.rng.choice(fs)
            os.unlink(p)
            self.dirty.add(self.name_of(os.path.dirname(p)))

    def rename(self):
        fs = self.pop.files()
        if not fs:
            return
        p = self.rng.choice(fs)
        d = os.path.dirname(p)
        t = self.rng.choice([d, *self.dirs.values()])
        fn = self.rng.choice([os.path.basename(p), self.rng.choice(self.pop.names) + self.rng.choice(['', '_20210101', '_20210101T1'] ) + '.zip'])
        if '__' in fn or beadfile.name_from_file(fn) in ('', '.', '..') or os.path.exists(os.path.join(t, fn)) or not self.fresh(t, fn):
            return
        os.rename(p, os.path.join(t, fn))
        self.dirty |= {self.name_of(d), self.name_of(t)}

    def save(self):
        with open(os.path.join(self.ws, 'output', 'o'), 'wb') as f:
            f.write(self.rng.randbytes(5))
        n = self.rng.choice(list(self.dirs))
        self.u.must('save', n, '-w', self.ws)
        self.used |= {(self.dirs[n], f) for f in os.listdir(self.dirs[n])}
        if not os.path.exists(os.path.join(self.dirs[n], '.index.sqlite')):
            self.dirty.add(n)
        self.w.count('saves')

    def index(self, which=None):
        cmd = which or self.rng.choice(['index', 'index', 'reindex'])
        n = self.rng.choice(list(self.dirs))
        form = self.rng.choice(['box', 'dir', 'all', 'none'] if len(self.dirs) == 1 else ['box', 'dir', 'all'])
        args, done = {
            'box': (['--box', n], {n}), 'dir': (['--dir', self.dirs[n]], {n}), 'all': (['--all'], set(self.dirs)),
            'none': ([], set(self.dirs))}[form]
        before = {d: zips_state(d) for d in self.dirs.values()}
        self.u.must('box', cmd, *args)
        self.w.count('index_runs')
        self.dirty -= done
        for d in self.dirs.values():
            self.w.check(zips_state(d) == before[d], 'indexing touched the archives', dir=d)
        for n in done:
            indexed = os.path.isfile(os.path.join(self.dirs[n], '.index.sqlite'))
            # (an empty box might remain without an index)
            self.w.check(indexed or not before[self.dirs[n]], 'box was not indexed', box=n)
            if not indexed:
                self.dirty.add(n)
        return cmd

    def compare(self, step, queries=6):
        for n, d in self.dirs.items():
            if n not in self.dirty:
                compare(self.w, self.rng, self.pop, n, d, step, queries)


def zips_state(d):
    s = snap.snapshot(d, mtimes=True)
    return {k: v for k, v in s.items() if k != '.' and not k.startswith('.index.sqlite')}


def compare(w, rng, pop, n, d, step, queries=6):
    records = box_records(d, n)
    box = Box(n, Path(d))
    w.check(os.path.exists(os.path.join(d, '.index.sqlite')) or not records, 'no index', _stop=True, step=step)
    raw = RawFilesystemResolver(Path(d))
    for i in range(queries):
        q = random_query(rng, pop, records) if i else []
        want = {ref_key(b) for b in records if all(p(b) for _, _, p in q)}
        s = build(box.search(), q)
        got = s.all()
        gk = [key(b) for b in got]
        info = dict(query=describe(q), box=n, dir=d, step=step)
        w.count('comparisons')
        if want:
            w.count('nonempty')
        w.check(set(gk) == want and len(gk) == len(set(gk)), 'indexed box does not answer as its files', missing=list(want - set(gk))[:3], extra=list(set(gk) - want)[:3], twice=len(gk) != len(set(gk)), **info)
        scan = {key(b) for b in raw.get_beads(s.conditions, n)}
        w.check(scan == set(gk), 'indexed box does not answer as a scan of the box', missing=list(scan - set(gk))[:3], extra=list(set(gk) - scan)[:3], **info)
        for sel in ('first', 'newest', 'oldest'):
            a, b = attempt(getattr(build(box.search(), q), sel))
            w.check(a == ('ok' if want else 'missing') and (a != 'ok' or key(b) in want), 'wrong selection in an indexed box', sel=sel, **info)
        w.seen('state', [step, len(records), sorted(m for m, _, _ in q), len(want)])
        if i == 0:
            for b in got:
                w.count('resolved')
                a, archive = attempt(box.resolve, b)
                ok = a == 'ok'
                if ok:
                    bf = beadfile.BeadFile(archive.location)
                    ok = (bf.name, bf.content_id) == (b.name, b.content_id) and str(archive.name) == b.name and archive.content_id == b.content_id
                w.check(ok, 'bead of an indexed box can not be resolved to itself', bead=key(b)[:5], got=repr(archive), **info)
            bead.zipopener.close_all()


def run_case(case, w):
    world = World(case, w)
    dict(faults=faulty, large=large, history=history)[case['mode']](case, w, world)


def large(case, w, world):
    '''many beads, many of them removed, renamed and added at once'''
    rng = w.rng
    for _ in range(case['size']):
        world.put()
    for cmd in ('index', 'reindex'):
        world.dirty = set(world.dirs)
        world.index(cmd)
        w.count('large', len(world.pop.files()))
        world.compare(f'large {cmd}', 3)
        for p in world.pop.files():
            r = rng.random()
            if r < .6 and os.path.exists(p):
                os.unlink(p)
            elif r < .65:
                world.rename()
        for _ in range(case['size'] // 3):
            world.put()
        world.dirty = set(world.dirs)
        world.index('index')
        world.compare('large changed', 3)


def history(case, w, world):
    rng = w.rng
    world.compare('start')
    for i in range(case['steps']):
        step = rng.choice(['put', 'copy', 'delete', 'rename', 'rename', 'save', 'save', 'index', 'index', 'index'])
        getattr(world, step)()
        w.log('step', step, sorted(world.dirty))
        world.compare(step, 4)
    world.u.must('box', 'index', '--all')
    world.dirty = set()
    world.compare('end')
    w.sample(dict(dir=case['dir'], beads=len(world.pop.files()), steps=case['steps']))


def faulty(case, w, world):
    rng = w.rng
    n = rng.choice(list(world.dirs))
    d = world.dirs[n]
    for _ in range(3):
        rng.choice([world.put, world.put, world.copy])()
    if rng.random() < .7:
        world.index()
        for _ in range(4):
            rng.choice([world.put, world.copy, world.delete, world.rename, world.save])()
    master = os.path.join(w.dir, 'master')
    faults.clone(world.root, master)

    def go(argv, **kw):
        force_rmtree(world.root)
        faults.clone(master, world.root)
        return faults.command(world.u, argv, scope=d, **kw)
    for argv in (['box', 'index', '--box', n], ['box', 'reindex', '--box', n], ['save', n, '-w', world.ws]):
        total = go(argv).ops
        for at in sorted(rng.sample(range(1, total + 1), min(total, case['points'] // 2))):
            how, mode, err = rng.choice([
                ('kill', faults.KILL, 0), ('kill', faults.KILL, 0), ('partial', faults.PARTIAL_KILL, 0), ('error', faults.FAIL, errno.EIO),
                ('full', faults.FAIL_ON, errno.ENOSPC), ('interrupt', faults.SIGINT, 0)])
            out = go(argv, mode=mode, n=at, err=err)
            w.count('interrupted_runs')
            before = zips_state(d)
            if argv[0] != 'save':
                master_d = os.path.join(master, os.path.relpath(d, world.root))
                w.check(before == zips_state(master_d), 'an interrupted index run touched the archives', how=how, at=at, argv=argv)
            cmd = rng.choice(['index', 'index', 'reindex'])
            r = world.u.bead('box', cmd, '--box', n)
            w.check(r.ok, 'index run after an interrupted one fails', how=how, at=at, argv=argv, result=repr(r), tb=r.tb)
            w.check(before == zips_state(d), 'indexing touched the archives', how=how, at=at, argv=argv)
            step = f'{how} {argv[1] if argv[0] == "box" else argv[0]} then {cmd}'
            w.seen('state', [step, at, out.killed])
            compare(w, rng, world.pop, n, d, step, 2)
            # and it stays right
            if rng.random() < .3:
                world.u.must('save', n, '-w', world.ws)
                compare(w, rng, world.pop, n, d, step + ', save', 1)

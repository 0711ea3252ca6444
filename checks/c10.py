import contextlib
import os
import shutil
import sqlite3

from bead.box import resolve, search
from bead.box_index import BoxIndex
from bead.exceptions import BoxError, BoxIndexError, InvalidArchive
from bead import zipopener
from bead.tech.fs import Path

from harness import beadfile, gen, snap
from harness.cli import User
from harness.query import Population, boxes_of, build, key, random_query
from harness.world import box_records

PROPERTY = 'C10'
LEVEL = 'exploration'
RULE = ('one case = beads found by searches in plain and indexed boxes, then files being copied, renamed, moved, replaced in place, swapped, damaged and '
        'removed, and the found beads resolved through the same or through new box objects after every change; the archive obtained is read completely and compared with '
        'the independently known content; non-trivial = distinct (last changes, indexed, same boxes, outcome) tuples')
REQUIRED = {'resolutions': 5000, 'resolved': 2500, 'refused': 1000, 'must_succeed': 1500, 'content_compared': 2500, '#state': 250}


def plan(tier, rng):
    n = 300 if tier == 'quick' else 3000
    return [dict(boxes=[1, 2, 3][i % 3], indexed=i % 2 == 1, steps=14 if tier == 'quick' else 30) for i in range(n)]


class Found:
    def __init__(self, bead, bf, boxes, files):
        self.bead, self.bf, self.boxes, self.files = bead, bf, boxes, files


def run_case(case, w):
    rng = w.rng
    u = User(w)
    dirs = {f'b{i}': u.mkdir(f'dir{i}') for i in range(case['boxes'])}
    pop = Population(w, dirs, rng.choice([3, 6, 10]))
    for _ in range(rng.randrange(4)):
        pop.copy()
    indexed = []
    if case['indexed']:
        for n, d in dirs.items():
            if rng.random() < .7:
                u.must('box', 'index', '--dir', d)
                indexed.append(n)
    known = {}
    found = []
    aside = u.mkdir('aside')

    def learn():
        for n, d in dirs.items():
            for b in box_records(d, n):
                if b.content_id not in known:
                    b.original = open(b.path, 'rb').read()
                    known[b.content_id] = b

    def find():
        boxes = boxes_of(dirs)
        if rng.random() < .5:
            boxes.reverse()
        q = random_query(rng, pop, []) if rng.random() < .3 else []
        for bead in build(search(boxes), q).all():
            files = [b.path for b in box_records(dirs[bead.box_name]) if (b.name, b.content_id) == (bead.name, bead.content_id)]
            found.append(Found(bead, known.get(bead.content_id), boxes, files))
            if bead.box_name in indexed:
                found[-1].place = index_says(dirs[bead.box_name], bead)
        zipopener.close_all() if rng.random() < .5 else None

    learn()
    find()
    changes = []
    for step in range(case['steps']):
        for _ in range(rng.choice([1, 1, 2])):
            # archives open at the time of the change are out of scope
            zipopener.close_all()
            changes.append(change(w, rng, u, pop, dirs, aside, indexed))
            learn()
        if rng.random() < .3:
            find()
        for f in rng.sample(found, min(len(found), 12)):
            check(w, rng, f, dirs, indexed, changes)
        if len(found) > 60:
            found = found[-40:]
    w.sample(dict(changes=changes[:8], found=len(found), indexed=indexed))


def change(w, rng, u, pop, dirs, aside, indexed):
    fs = pop.files()
    kind = rng.choice(['put', 'copy', 'remove', 'rename', 'move', 'replace', 'overwrite', 'swap', 'damage', 'truncate', 'index', 'put aside', 'put back', 'directory'])
    if kind == 'put':
        pop.put()
    elif kind == 'copy':
        pop.copy()
    elif kind == 'put back':
        for n in os.listdir(aside):
            d, _, fn = n.partition('~~')
            t = os.path.join(dirs[d], fn)
            if not os.path.lexists(t):
                os.rename(os.path.join(aside, n), t)
    elif kind == 'index':
        if indexed:
            u.must('box', rng.choice(['index', 'reindex']), '--dir', dirs[rng.choice(indexed)])
    elif fs:
        p = rng.choice(fs)
        d, fn = os.path.split(p)
        other = rng.choice(fs)
        if kind == 'remove':
            os.unlink(p)
        elif kind in ('rename', 'move'):
            t = os.path.join(d, rng.choice(pop.names) + '_20200101.zip') if kind == 'rename' else os.path.join(rng.choice(list(dirs.values())), fn)
            if not os.path.exists(t) and '__' not in os.path.basename(t):
                os.rename(p, t)
        elif kind == 'replace' and other != p:
            # a new file under an old name
            shutil.copy(other, p + '.new')
            os.replace(p + '.new', p)
        elif kind == 'overwrite' and other != p:
            b = open(other, 'rb').read()
            with open(p, 'wb') as f:
                f.write(b)
        elif kind == 'swap' and other != p:
            os.rename(p, p + '.x')
            os.rename(other, p)
            os.rename(p + '.x', other)
        elif kind == 'damage':
            b = bytearray(open(p, 'rb').read())
            for _ in range(rng.choice([1, 10])):
                if not b:
                    b.append(0)
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            with open(p, 'wb') as f:
                f.write(b)
        elif kind == 'truncate':
            with open(p, 'r+b') as f:
                f.truncate(rng.randrange(max(1, os.path.getsize(p))))
        elif kind == 'directory' and rng.random() < .4:
            os.unlink(p)
            os.mkdir(p)
        elif kind == 'put aside':
            n = next(n for n, x in dirs.items() if x == d)
            os.rename(p, os.path.join(aside, n + '~~' + fn))
    w.log('change', kind)
    return kind


def intact(f, path):
    try:
        return beadfile.name_from_file(path) == f.bead.name and open(path, 'rb').read() == f.bf.original
    except OSError:
        return False


def index_says(d, bead):
    p = os.path.join(d, '.index.sqlite')
    if not os.path.exists(p):
        return None
    try:
        with contextlib.closing(sqlite3.connect(p)) as c:
            row = c.execute('select file_path from beads where name = ? and content_id = ?', (bead.name, bead.content_id)).fetchone()
        return os.path.join(d, row[0]) if row else None
    except (sqlite3.Error, UnicodeEncodeError):
        # stored in another way
        try:
            return os.fspath(BoxIndex(Path(d)).get_file_path(bead.name, bead.content_id))
        except (LookupError, BoxIndexError):
            return None


def check(w, rng, f, dirs, indexed, changes):
    fresh = rng.random() < .5
    boxes = boxes_of(dirs) if fresh else f.boxes
    if rng.random() < .1:
        # not even its box is there
        some = [b for b in boxes if b.name != f.bead.box_name]
        expect = 'missing'
    else:
        some, expect = boxes, None
    if f.bead.box_name in indexed:
        # where the index says it is
        now = index_says(dirs[f.bead.box_name], f.bead)
        here = bool(now) and now == f.place and intact(f, now)
    else:
        here = f.files and all(intact(f, p) for p in f.files)
    w.count('resolutions')
    info = dict(bead=key(f.bead)[:5], fresh=fresh, indexed=f.bead.box_name in indexed, changes=changes[-4:])
    try:
        archive = resolve(some, f.bead)
    except (LookupError, InvalidArchive, BoxError, BoxIndexError, ValueError) as e:
        w.count('refused')
        w.seen('state', [changes[-2:], info['indexed'], fresh, 'refused'])
        w.check(expect == 'missing' or not here, 'bead is where it was found, but it can not be resolved', error=repr(e), files=f.files, **info)
        return
    w.count('resolved')
    w.seen('state', [changes[-2:], info['indexed'], fresh, 'resolved'])
    if here:
        w.count('must_succeed')
    w.check(expect is None, 'resolved from a box that is not there', **info)
    w.check((str(archive.name), archive.content_id, archive.box_name) == (f.bead.name, f.bead.content_id, f.bead.box_name),
            'resolved to a different bead', got=(archive.name, archive.content_id, archive.box_name), **info)
    w.check(os.path.dirname(os.path.realpath(archive.location)) == os.path.realpath(dirs[f.bead.box_name]), 'resolved to a different box', got=archive.location, **info)
    # what is in it?
    try:
        archive.validate()
        out = os.path.join(w.dir, 'out')
        archive.unpack_data_to(Path(out))
        archive.unpack_code_to(Path(os.path.join(w.dir, 'code')))
    except InvalidArchive:
        w.count('damaged')
        w.check(not here, 'intact bead is reported as damaged', **info)
    else:
        w.count('content_compared')
        want = f.bf
        w.check(snap.tree_files(out) == want.data and snap.tree_files(os.path.join(w.dir, 'code')) == want.code, 'resolved bead has different content', **info)
        w.check(archive.kind == want.kind and archive.freeze_time_str == want.freeze_time_str, 'resolved bead has different metadata', **info)
    finally:
        for n in ('out', 'code'):
            shutil.rmtree(os.path.join(w.dir, n), ignore_errors=True)

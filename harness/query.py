'''
Random populations of boxes, random queries, and the reference answers calculated from independently parsed files.
'''
import os
import shutil
import time
from datetime import datetime, timedelta, timezone

from bead.box import Box, search
from bead.exceptions import BoxError, InvalidArchive
from bead.tech.fs import Path

from . import beadfile, gen
from .beadfile import normal_inputs, spec_inputs
from .world import box_records, put_bead, random_inputs

NAME_FAMILIES = [
    ['plain', 'plain2', 'plai', 'plain_', 'pl*in', 'plain[2]'], ['g[1]', 'g1', 'g[', '[!a]', 'a', 'g'], ['**', '*', '?', 'st*r', 'star'],
    ['x', 'x_20200101', 'x_20200101T000000', 'x_', 'x_2020'], ['UPPER', 'upper', 'Upper'], ['e\u0301', '\u00e9', 'e'], ['a.b', 'a', 'a.b.c', '.b'],
    ["o'brien", 'o', 'q"q', 'pct%41', 'pctA', 'pct%'], ['ünï', '日本', 'un', '日'], [' lead', 'lead', 'trail ', 'trail'], ['-d', '--', '-', '~t'],
    ['x.zip', 'x', 'x.ZIP'], ['a b', 'a', 'b', 'a  b'], ['new\nline', 'new', 'tab\t'], ['und\udcff', 'und', 'und\udcfe', '\udce9'],
]
FILES = ['{n}_{ts}.zip', '{n}_{ts}.zip', '{n}_{ts}.zip', '{n}.zip', '{n}_{d}.zip', '{n}_{d}t123.zip']


class Population:
    '''boxes with beads near to each other in every respect'''

    def __init__(self, w, dirs, beads, rich=True):
        self.w, self.rng = w, w.rng
        self.dirs = dirs                    # {box name: directory}
        rng = w.rng
        self.names = rng.choice(NAME_FAMILIES)
        self.kinds = rng.sample(gen.KINDS, 3)
        self.base = gen.gen_instant(rng)
        self.instants = [self.base] + [gen.near(rng, self.base) for _ in range(4)] + [gen.gen_instant(rng)]
        self.rich = rich
        for _ in range(beads):
            self.put()

    def put(self, **kw):
        rng = self.rng
        d = rng.choice(list(self.dirs.values()))
        name = rng.choice(self.names)
        t = gen.near(rng, rng.choice(self.instants))
        off = rng.choice(gen.OFFSETS)
        ts = beadfile.ts_from_instant(t, off)
        fn = rng.choice(FILES if self.rich else FILES[:1]).format(n=name, ts=ts, d=ts[:8])
        if beadfile.name_from_file(fn) == '' or os.path.exists(os.path.join(d, fn)):
            return None
        bf = put_bead(
            d, rng, name, instant=t, offset=off, kind=rng.choice(self.kinds), filename=fn,
            inputs=random_inputs(rng) if rng.random() < .4 else {}, data={'d': rng.randbytes(3)} if rng.random() < .8 else {}, **kw)
        self.instants.append(t)
        self.age(bf.path)
        return bf

    def copy(self, rename=True):
        '''the same content elsewhere, possibly under another name'''
        rng = self.rng
        fs = self.files()
        if not fs:
            return
        p = rng.choice(fs)
        d = rng.choice(list(self.dirs.values()))
        fn = os.path.basename(p)
        if rename and rng.random() < .6:
            fn = rng.choice(self.names) + rng.choice(['', '_20200101', '_20200101T000000000000+0000']) + '.zip'
        if beadfile.name_from_file(fn) in ('', '.', '..') or '__' in fn or os.path.exists(os.path.join(d, fn)):
            return
        shutil.copy(p, os.path.join(d, fn))
        self.age(os.path.join(d, fn))
        return os.path.join(d, fn)

    def age(self, path):
        '''the modification time of an archive tells nothing'''
        if self.rng.random() < .5:
            t = self.rng.choice([0, 10 ** 9, time.time() - 3600, time.time() + 3600, 4 * 10 ** 9])
            os.utime(path, (t, t))

    def files(self):
        return [os.path.join(d, n) for d in self.dirs.values() for n in sorted(os.listdir(d)) if n.endswith('.zip') and os.path.isfile(os.path.join(d, n))]

    def records(self, box_name):
        return box_records(self.dirs[box_name], box_name)


def boxes_of(dirs):
    return [Box(n, Path(d)) for n, d in dirs.items()]


def dt_from_instant(rng, us):
    t = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(microseconds=us)
    return t.astimezone(timezone(timedelta(minutes=rng.choice(gen.OFFSETS))))


TIMES = dict(
    at_time=lambda a, b: a == b, newer_than=lambda a, b: a > b, older_than=lambda a, b: a < b,
    at_or_newer=lambda a, b: a >= b, at_or_older=lambda a, b: a <= b)


def random_query(rng, pop, records):
    '''[(method, argument, predicate over BeadFile)]'''
    q = []
    pick = rng.choice(records) if records and rng.random() < .8 else None
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        k = rng.choice(['name', 'name', 'kind', 'cid', 'time', 'time', 'time'])
        if k == 'name':
            v = pick.name if pick and rng.random() < .6 else rng.choice(pop.names)
            q.append(('by_name', v, lambda b, v=v: b.name == v))
        elif k == 'kind':
            v = pick.kind if pick and rng.random() < .7 else rng.choice(pop.kinds + gen.KINDS[:3])
            q.append(('by_kind', v, lambda b, v=v: b.kind == v))
        elif k == 'cid':
            v = pick.content_id if pick and rng.random() < .8 else rng.choice(['%0128x' % rng.getrandbits(512), 'abc', (pick.content_id.upper() if pick else 'x')])
            q.append(('by_content_id', v, lambda b, v=v: b.content_id == v))
        else:
            m = rng.choice(list(TIMES))
            us = (rng.choice(records).instant if records else pop.base) if rng.random() < .8 else rng.choice(pop.instants)
            us += rng.choice([0, 0, 0, 1, -1, 999, 1_000_000])
            arg = beadfile.ts_from_instant(us, rng.choice(gen.OFFSETS)) if rng.random() < .5 else dt_from_instant(rng, us)
            q.append((m, arg, lambda b, m=m, us=us: TIMES[m](b.instant, us)))
    return q


def build(searcher, q, unique=False):
    for m, arg, _ in q:
        searcher = getattr(searcher, m)(arg)
    if unique:
        searcher = searcher.unique()
    return searcher


def describe(q):
    return [(m, str(a)) for m, a, _ in q]


def key(b):
    '''comparable facts of a found Bead'''
    return (b.box_name, str(b.name), b.content_id, b.kind, b.freeze_time_str, tuple(sorted(spec_inputs(b.inputs).items())))


def ref_key(b):
    return (b.box_name, b.name, b.content_id, b.kind, b.freeze_time_str, tuple(sorted(normal_inputs(b.inputs).items())))


def true_instant(bead):
    '''the moment in the found bead as microseconds'''
    d = bead.freeze_time - datetime(1970, 1, 1, tzinfo=timezone.utc)
    return (d.days * 86400 + d.seconds) * 1_000_000 + d.microseconds


def attempt(f, *a):
    '''(kind of answer, value)'''
    try:
        return 'ok', f(*a)
    except LookupError as e:
        return 'missing', e

import collections
import os

from bead.box import search

from harness import gen
from harness.cli import User
from harness.query import Population, attempt, boxes_of, build, describe, key, random_query, ref_key, true_instant

PROPERTY = 'C08'
LEVEL = 'exploration'
RULE = ('one case = boxes filled with beads that are near to each other in name, kind, content and time, queried by random combinations of '
        'conditions through every selection; the answers are compared with a filter over independently parsed archives; '
        'non-trivial = distinct (query shape, size of the answer, size of the population) tuples with a non-empty condition')
REQUIRED = {'queries': 6000, 'nonempty': 2000, 'partial': 1000, 'selections': 8000, 'missing': 2000, 'unique': 1500, '#query': 400}


def plan(tier, rng):
    n = 160 if tier == 'quick' else 4000
    return [dict(boxes=[1, 2, 3, 1][i % 4], beads=[3, 8, 14, 24][i // 2 % 4], indexed=(i % 5 == 4), rounds=4, queries=14) for i in range(n)]


def run_case(case, w):
    rng = w.rng
    u = User(w)
    dirs = {f'b{i}' + rng.choice(['', ' x', '[1]']): u.mkdir(rng.choice(['box', 'b[o]x', 'bö x', 'b?x*']) + str(i)) for i in range(case['boxes'])}
    pop = Population(w, dirs, case['beads'])
    if case['boxes'] > 1 or rng.random() < .5:
        for _ in range(rng.randrange(5)):
            pop.copy()
    if case['indexed']:
        d = rng.choice(list(dirs.values()))
        u.must('box', 'index', '--dir', d)
    boxes = boxes_of(dirs)
    for r in range(case['rounds']):
        if r:
            # the same boxes, with changed content
            if not case['indexed']:
                for _ in range(rng.randrange(3)):
                    rng.choice([pop.put, pop.copy])()
                if rng.random() < .5:
                    fs = pop.files()
                    if len(fs) > 2:
                        os.unlink(rng.choice(fs))
            rng.shuffle(boxes)
        records = {n: pop.records(n) for n in dirs}
        for _ in range(case['queries']):
            if rng.random() < .35:
                box = rng.choice(boxes)
                used, searcher = [box], box.search
            else:
                used = rng.sample(boxes, rng.randint(0, len(boxes)))
                searcher = lambda: search(used)
            check_query(w, rng, pop, used, searcher, records)


def check_query(w, rng, pop, used, searcher, records):
    everything = [b for box in used for b in records[box.name]]
    q = random_query(rng, pop, everything)
    want = [b for b in everything if all(p(b) for _, _, p in q)]
    w.count('queries')
    if want:
        w.count('nonempty')
        if len(want) < len(everything):
            w.count('partial')
    info = dict(query=describe(q), boxes=[b.name for b in used])
    got = build(searcher(), q).all()
    wk, gk = collections.Counter(map(ref_key, want)), collections.Counter(map(key, got))
    ok = set(wk) == set(gk) and all(gk[k] <= wk[k] for k in gk)
    w.check(ok, 'search did not return exactly the matching beads', missing=list((wk - gk).elements())[:3], extra=list((gk - wk).elements())[:3], **info)
    moment = {ref_key(x): x.instant for x in want}
    for b in got:
        w.check(true_instant(b) == moment.get(key(b)), 'wrong time of found bead', bead=key(b), **info)
    w.seen('query', [sorted(m for m, _, _ in q), len(want), len(everything)])
    if len(q) > 2 and 0 < len(want) < len(everything):
        w.sample(dict(**info, found=len(want), of=len(everything)))
    wanted = set(wk)
    instants = sorted(x.instant for x in want)
    # unique
    uq = build(searcher(), q, unique=True).all()
    cids = [b.content_id for b in uq]
    w.count('unique')
    w.check(len(cids) == len(set(cids)) and set(cids) == {x.content_id for x in want} and all(key(b) in wanted for b in uq),
            'unique search is not one of each content', got=cids, **info)
    for unique in (False, True):
        if unique:
            first_of = {}
            for x in want:
                first_of[x.content_id] = x.instant
            instants = sorted(first_of.values())
        elif len(got) != len(want):
            # an index has same bead in several files once
            instants = sorted(true_instant(b) for b in got)
        for sel in ('first', 'newest', 'oldest'):
            a, b = attempt(getattr(build(searcher(), q, unique), sel))
            w.count('selections')
            if not want:
                w.count('missing')
                w.check(a == 'missing', 'empty answer is not reported as not found', sel=sel, got=a, **info)
                continue
            if not w.check(a == 'ok' and key(b) in wanted, 'selected bead does not match', sel=sel, got=repr(b) if a == 'missing' else key(b), **info):
                continue
            if sel == 'newest':
                w.check(true_instant(b) == instants[-1], 'not the newest', got=key(b), **info)
            if sel == 'oldest':
                w.check(true_instant(b) == instants[0], 'not the oldest', got=key(b), **info)
        for sel in ('newer', 'older'):
            for n in {0, 1, len(instants) - 1, len(instants), rng.randrange(len(instants) + 3), None}:
                if n is not None and n < 0:
                    continue
                f = getattr(build(searcher(), q, unique), sel)
                a, b = attempt(*([f] if n is None else [f, n]))
                n = 1 if n is None else n
                w.count('selections')
                if n >= len(instants):
                    w.count('missing')
                    w.check(a == 'missing', 'not enough beads is not reported', sel=sel, n=n, have=len(instants), **info)
                else:
                    t = instants[n] if sel == 'newer' else instants[-1 - n]
                    w.check(a == 'ok' and key(b) in wanted and true_instant(b) == t, 'not the n-th bead', sel=sel, n=n, got=repr(b) if a == 'missing' else key(b), want=t, **info)

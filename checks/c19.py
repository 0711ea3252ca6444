import os
import shutil

from bead.meta import InputSpec
from bead_cli.web.dummy import Dummy
from bead_cli.web.freshness import Freshness
from bead_cli.web.sketch import Sketch, heads_of

from harness import webs
from harness.cli import User

PROPERTY = 'C19'
LEVEL = 'exploration'
RULE = ('one case = random webs (chains, diamonds, many versions, self inputs, name cycles, missing beads, lone beads, equal times) coloured '
        'through the command line from boxes or through the library in several orders, compared with a fixpoint calculated independently; '
        'non-trivial = distinct (shape, counts of nodes by colour) tuples having at least two colours')
REQUIRED = {'webs': 700, 'coloured': 9000, 'up_to_date': 1500, 'out_of_date': 800, 'superseded': 1500, 'phantom': 400, 'orders': 1500,
            'cli': 100, 'copies': 20, 'ties': 60, 'deep': 1, '#web': 400}


def plan(tier, rng):
    n = 160 if tier == 'quick' else 2000
    cases = [dict(how='api', rounds=50, size=[4, 8, 15, 40][i % 4]) for i in range(n)]
    cases += [dict(how='boxes', size=[3, 6, 12, 25][i % 4], boxes=1 + i % 3) for i in range(3 * n)]
    cases += [dict(how='deep', size=2500 if tier == 'quick' else 20000)]
    return cases


def dummies(web, rng, stale=True):
    '''the real nodes of the web as input of the code under test, with arbitrary previous colours'''
    out = []
    for n in web.nodes.values():
        if n.phantom:
            continue
        out.append(Dummy(
            name=n.name, content_id=n.cid, kind=n.kind, freeze_time_str=n.ts, box_name=rng.choice(['a', 'b']),
            inputs=[InputSpec(name=k, kind=v[0], content_id=v[1], freeze_time_str=v[2]) for k, v in n.inputs.items()],
            freshness=rng.choice([Freshness.SUPERSEDED, Freshness.UP_TO_DATE, Freshness.OUT_OF_DATE]) if stale else Freshness.SUPERSEDED))
    return out


def check_colors(w, web, got, info):
    '''got: [(facts, inputs, freshness, box)]'''
    d = webs.compare(web, got)
    w.check(not d, 'colouring changed the web', diff=d, **info)
    colour = {facts[:2]: f for facts, _, f, _ in got}
    want = web.colors()
    ties = web.ties()
    # what the colours of nodes are when it is not defined which of some nodes is the newest
    unsure = {r for r in web.nodes if r[0] in ties}
    grow = True
    while grow:
        more = {d for s, d in web.edges if s in unsure and d not in unsure}
        unsure |= more
        grow = bool(more)
    bad = {r: (want[r], colour.get(r)) for r in want if r not in unsure and want[r] != colour.get(r)}
    w.check(not bad, 'wrong freshness', wrong=[(web.nodes[r], *v) for r, v in list(bad.items())[:4]], nodes=list(web.nodes.values())[:12], **info)
    for name in ties:
        c = web.cluster(name)
        newest = max(n.instant for n in c)
        first = [n for n in c if n.instant == newest]
        cs = [colour.get(n.ref) for n in first]
        w.check(sum(x in ('UP_TO_DATE', 'OUT_OF_DATE') for x in cs) <= 1, 'more than one newest version of the same name', name=name, colours=cs, **info)
        if not any(n.phantom for n in first):
            w.check(any(x in ('UP_TO_DATE', 'OUT_OF_DATE') for x in cs), 'none of the newest beads of a name is the newest version', name=name, **info)
        for n in c:
            if n.instant < newest and not n.phantom:
                w.check(colour.get(n.ref) == 'SUPERSEDED', 'older version is not superseded', node=n, **info)
    # the definition, applied to the given answer
    for r, n in web.nodes.items():
        if colour.get(r) in ('UP_TO_DATE', 'OUT_OF_DATE'):
            stale = [nick for nick, v in n.inputs.items() if colour.get((nick, v[1])) != 'UP_TO_DATE']
            w.check(bool(stale) == (colour[r] == 'OUT_OF_DATE'), 'freshness contradicts the freshness of the inputs', node=n, colour=colour[r], stale=stale, **info)
    for f in colour.values():
        w.count(f.lower())
    w.count('coloured', len(colour))
    if ties:
        w.count('ties')
    return colour


def observe(w, shape, web, colour):
    counts = {}
    for f in colour.values():
        counts[f] = counts.get(f, 0) + 1
    if len(counts) > 1:
        w.seen('web', [shape, sorted(counts.items())])
        w.sample(dict(shape=shape, colours=counts, edges=len(web.edges)))


def names(rng):
    return rng.sample(webs.WEB_NAMES, rng.choice([1, 2, 3, 5, 8]))


def api(case, w):
    rng = w.rng
    for r in range(case['rounds']):
        ties = rng.random() < .15
        shape, web = webs.build_fake(rng, rng.randint(1, case['size']), names(rng), ties=ties)
        w.count('webs')
        info = dict(shape=shape, round=r)
        first = None
        ds = dummies(web, rng)
        for order in range(3):
            rng.shuffle(ds)
            fresh = [Dummy.from_bead(d) for d in ds]
            # listing of inputs is not significant, either
            for d in fresh:
                rng.shuffle(d.inputs)
            s = Sketch.from_beads(fresh)
            s.color_beads()
            got = [webs.seen(b) for b in s.beads]
            colour = check_colors(w, web, got, info)
            first = first or colour
            w.count('orders')
            w.check(colour == first, 'freshness depends on the order of beads', diff=[(r, colour[r], first[r]) for r in colour if colour[r] != first.get(r)][:3], **info)
            s.color_beads()
            again = {b[0][:2]: b[2] for b in map(webs.seen, s.beads)}
            w.check(again == colour, 'colouring again gives other colours', **info)
        observe(w, shape, web, first)
        if not ties:
            # parts of the web are webs, too
            part, _ = web.heads()
            h = heads_of(s).drop_deleted_inputs()
            h.color_beads()
            check_colors(w, part, [webs.seen(b) for b in h.beads], dict(info, part='heads'))


def boxes(case, w):
    rng = w.rng
    u = User(w)
    dirs = {f'b{i}': u.add_box(f'b{i}') for i in range(case['boxes'])}
    shape, web = webs.build_boxes(rng, case['size'], names(rng), dirs)
    real = [n for n in web.nodes.values() if not n.phantom]
    if rng.random() < .6:
        for _ in range(rng.randint(1, 3)):
            n = rng.choice(real)
            d = rng.choice(list(dirs.values()))
            t = os.path.join(d, os.path.basename(n.path))
            if not os.path.exists(t):
                shutil.copy(n.path, t)
                w.count('copies')
    if rng.random() < .4:
        u.must('box', 'index', '--all')
    w.count('webs')
    info = dict(shape=shape)
    u.must('web', 'color', 'save', 'a.web')
    colour = check_colors(w, web, webs.read_web(u.path('a.web')), info)
    observe(w, shape, web, colour)
    words = rng.choice([['color'], ['color', 'color'], ['save', 'x.web', 'color'], ['save', 'x.web', 'load', 'x.web', 'color']])
    first = rng.choice([['load', 'a.web'], ['load', 'a.web', 'color', 'save', 'c.web', 'load', 'c.web'], []])
    u.must('web', *first, *words, 'save', 'b.web')
    w.check(check_colors(w, web, webs.read_web(u.path('b.web')), dict(info, words=first + words)) == colour, 'colouring again gives other colours', **info)
    w.count('cli')
    # a new version of something changes colours of those depending on it
    head = [n for n in real if n.inputs] or real
    n = rng.choice(head)
    latest = max(x.instant for x in web.cluster(n.name))
    from harness import beadfile, gen
    from harness.world import put_bead
    bf = put_bead(rng.choice(list(dirs.values())), rng, n.name, instant=latest + 5_000_000, kind=n.kind,
                  inputs={} if rng.random() < .5 else {k: v for k, v in n.inputs.items()})
    if os.path.exists(os.path.join(os.path.dirname(bf.path), '.index.sqlite')):
        u.must('box', 'index', '--all')
    more = webs.Web([x for x in real] + [webs.Node(bf.name, bf.content_id, bf.kind, bf.freeze_time_str, beadfile.normal_inputs(bf.inputs))])
    u.must('web', 'color', 'save', 'd.web')
    check_colors(w, more, webs.read_web(u.path('d.web')), dict(info, after='new version'))
    w.count('cli')


def deep(case, w):
    rng = w.rng
    start = 1_500_000_000_000_000
    from harness import beadfile
    nodes, last = [], None
    for i in range(case['size']):
        ins = {last.name: (last.kind, last.cid, last.ts)} if last else {}
        last = webs.Node(f'n{i}', '%0128x' % rng.getrandbits(512), 'k', beadfile.ts_from_instant(start + i), ins)
        nodes.append(last)
    for stale in (False, True):
        if stale:
            # a newer first one
            nodes.append(webs.Node('n0', '%0128x' % rng.getrandbits(512), 'k', beadfile.ts_from_instant(start + 10_000_000), {}))
        ds = [Dummy(name=n.name, content_id=n.cid, kind=n.kind, freeze_time_str=n.ts,
                    inputs=[InputSpec(name=k, kind=v[0], content_id=v[1], freeze_time_str=v[2]) for k, v in n.inputs.items()]) for n in nodes]
        rng.shuffle(ds)
        s = Sketch.from_beads(ds)
        s.color_beads()
        counts = {}
        for b in s.beads:
            counts[b.freshness.name] = counts.get(b.freshness.name, 0) + 1
        n = case['size']
        want = {'UP_TO_DATE': n} if not stale else {'UP_TO_DATE': 1, 'SUPERSEDED': 1, 'OUT_OF_DATE': n - 1}
        w.check(counts == want, 'wrong colours in a long chain', got=counts, want=want)
    w.count('deep')


def run_case(case, w):
    {'api': api, 'boxes': boxes, 'deep': deep}[case['how']](case, w)

import os

from bead_cli.web.dummy import Dummy
from bead_cli.web.sketch import Sketch, heads_of, set_sinks, set_sources

from checks.c19 import dummies
from harness import webs
from harness.cli import User

PROPERTY = 'C20'
LEVEL = 'exploration'
RULE = ('one case = random webs (chains, diamonds, many versions, self inputs, name cycles, missing beads, lone beads) reduced by filters with '
        'random sources and sinks, by heads and by sequences of these, through the command line from boxes or through the library, compared with '
        'independently calculated reachability; non-trivial = distinct (operation, kept of all nodes, kept of all connections) tuples that keep a proper part')
REQUIRED = {'webs': 700, 'filters': 2500, 'sources_only': 500, 'sinks_only': 500, 'both': 700, 'heads': 900, 'proper': 1200, 'emptied': 100,
            'kept_all': 100, 'unknown_names': 150, 'cli': 100, 'sequences': 80, 'deep': 1, '#reduction': 500}


def plan(tier, rng):
    n = 160 if tier == 'quick' else 2000
    cases = [dict(how='api', rounds=30, size=[4, 8, 15, 40][i % 4]) for i in range(n)]
    cases += [dict(how='boxes', size=[3, 6, 12, 25][i % 4], boxes=1 + i % 3) for i in range(2 * n)]
    cases += [dict(how='deep', size=1500 if tier == 'quick' else 8000)]
    return cases


def names(rng):
    return rng.sample(webs.WEB_NAMES, rng.choice([2, 3, 5, 8, 12]))


def random_filter(rng, w, web):
    all_names = sorted(web.names)

    def some():
        s = set(rng.sample(all_names, min(len(all_names), rng.choice([1, 1, 2, 3]))))
        if rng.random() < .12:
            s.add('unknown name')
            w.count('unknown_names')
        if rng.random() < .04:
            s = {'unknown name'}
        return s
    k = rng.choice(['sources', 'sinks', 'both', 'both', 'none']) if rng.random() < .95 else 'none'
    return (some() if k in ('sources', 'both') else set()), (some() if k in ('sinks', 'both') else set())


def check_filter(w, web, sources, sinks, got, info):
    want, lone = web.filtered(sources, sinks)
    info = dict(info, sources=sorted(sources), sinks=sorted(sinks))
    # whether a computation remaining without any connection is kept is not specified
    have = {g[0][0] for g in got}
    absent = lone - have
    want = want.without(absent)
    d = webs.compare(want, got)
    w.check(not d, 'filter kept another part of the web', diff=d, edges=[(str(web.nodes[a]), str(web.nodes[b])) for a, b in list(web.edges)[:14]], **info)
    w.count('filters')
    if sources or sinks:
        w.count('both' if sources and sinks else 'sources_only' if sources else 'sinks_only')
    observe(w, 'filter', web, want, info)
    return want


def check_heads(w, web, got, info):
    want, heads = web.heads()
    d = webs.compare(want, got)
    w.check(not d, 'heads kept another part of the web', diff=d, heads=[web.nodes[r] for r in heads][:8], **info)
    w.count('heads')
    observe(w, 'heads', web, want, info)
    return want


def observe(w, op, web, want, info):
    if not want.nodes:
        w.count('emptied')
    elif len(want.nodes) == len(web.nodes):
        w.count('kept_all')
    else:
        w.count('proper')
        w.seen('reduction', [op, len(want.nodes), len(web.nodes), len(want.edges), len(web.edges)])
        if len(want.edges) > 1:
            w.sample(dict(op=op, kept=f'{len(want.nodes)} of {len(web.nodes)} beads, {len(want.edges)} of {len(web.edges)} connections', **info))


def check_edges(w, sketch, want, info):
    '''connections of the sketch itself, not only those in the inputs of beads'''
    got = [((a.src.name, a.src.content_id), (a.dest.name, a.dest.content_id), a.label) for a in sketch.edges]
    expected = {(s, d, s[0]) for s, d in want.edges}
    w.check(len(got) == len(set(got)), 'a connection is repeated', **info)
    w.check(set(got) == expected, 'wrong connections', missing=list(expected - set(got))[:3], extra=list(set(got) - expected)[:3], **info)


def colours(got):
    return {g[0][:2]: g[2] for g in got}


def api(case, w):
    rng = w.rng
    for r in range(case['rounds']):
        shape, web = webs.build_fake(rng, rng.randint(1, case['size']), names(rng))
        w.count('webs')
        info = dict(shape=shape, round=r)
        ds = dummies(web, rng)
        rng.shuffle(ds)
        s = Sketch.from_beads(ds)
        if rng.random() < .5:
            s.color_beads()
        before = colours(map(webs.seen, s.beads))
        for _ in range(3):
            sources, sinks = random_filter(rng, w, web)
            f = s
            if sources:
                f = set_sources(f, sources)
            if sinks:
                f = set_sinks(f, sinks)
            got = [webs.seen(b) for b in f.beads]
            want = check_filter(w, web, sources, sinks, got, info)
            check_edges(w, f, want, info)
            after = colours(got)
            w.check(all(before[k] == v for k, v in after.items()), 'filter changed a kept bead', **info)
        h = heads_of(s)
        want, _ = web.heads()
        check_edges(w, h, want, info)
        h = h.drop_deleted_inputs()
        got = [webs.seen(b) for b in h.beads]
        check_heads(w, web, got, info)
        check_edges(w, h, want, info)
        w.check(all(before[k] == v for k, v in colours(got).items()), 'heads changed a kept bead', **info)
        d = webs.compare(web, [webs.seen(b) for b in s.beads])
        w.check(not d and colours(map(webs.seen, s.beads)) == before, 'reducing changed the original web', diff=d, **info)


def words_of(rng, names):
    l = sorted(names)
    rng.shuffle(l)
    # repetition is not significant
    return l + l[:1] if l and rng.random() < .2 else l


def boxes(case, w):
    rng = w.rng
    u = User(w)
    dirs = {f'b{i}': u.add_box(f'b{i}') for i in range(case['boxes'])}
    shape, web = webs.build_boxes(rng, case['size'], names(rng), dirs)
    w.count('webs')
    if rng.random() < .4:
        u.must('box', 'index', '--all')
    u.must('web', 'color', 'save', 'all.web')
    before = colours(webs.read_web(u.path('all.web')))
    for r in range(4):
        words, now = [], web
        steps = rng.choice([['filter'], ['filter'], ['heads'], ['filter', 'heads'], ['heads', 'filter'], ['filter', 'filter'], ['filter', 'heads', 'filter']])
        if len(steps) > 1:
            w.count('sequences')
        for i, step in enumerate(steps):
            if step == 'filter':
                sources, sinks = random_filter(rng, w, now) if now.nodes else (set(), set())
                words += ['/', *words_of(rng, sources), '..', *words_of(rng, sinks), '/']
            else:
                words += ['heads']
            words += ['save', f'{i}.web']
            info = dict(shape=shape, words=words)
            prefix = ['load', 'all.web'] if rng.random() < .5 else ['color']
            u.must('web', *prefix, *words)
            got = webs.read_web(u.path(f'{i}.web'))
            w.count('cli')
            now = check_filter(w, now, sources, sinks, got, info) if step == 'filter' else check_heads(w, now, got, info)
            w.check(all(before[k] == v for k, v in colours(got).items()), 'reducing changed a kept bead', **info)


def deep(case, w):
    rng = w.rng
    from harness import beadfile
    start = 1_500_000_000_000_000
    nodes, last = [], None
    n = case['size']
    for i in range(n):
        ins = {last.name: (last.kind, last.cid, last.ts)} if last else {}
        last = webs.Node(f'n{i}', '%0128x' % rng.getrandbits(512), 'k', beadfile.ts_from_instant(start + i), ins)
        nodes.append(last)
    s = Sketch.from_beads(dummies(webs.Web(nodes), rng))
    for a, b in ((n // 3, n // 2), (0, n - 1), (n - 2, n - 1)):
        f = set_sinks(set_sources(s, [f'n{a}']), [f'n{b}'])
        got = sorted(int(x.name[1:]) for x in f.beads)
        w.check(got == list(range(a, b + 1)), 'filter kept another part of a long chain', kept=len(got), sources=a, sinks=b)
    w.check(len(heads_of(s).beads) == n, 'heads of a long chain')
    w.count('deep')


def run_case(case, w):
    {'api': api, 'boxes': boxes, 'deep': deep}[case['how']](case, w)

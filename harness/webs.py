'''
Random webs of beads and independent algorithms on them.

A node is identified by (name, content id); an input refers to the node having the name of the input and the recorded content id.
'''
import os
import shutil

from bead_cli.web.io import read_beads

from . import beadfile, gen
from .beadfile import normal_inputs, spec_inputs
from .world import put_bead


class Node:
    def __init__(self, name, cid, kind, ts, inputs=None, phantom=False, box=''):
        self.name, self.cid, self.kind, self.ts = name, cid, kind, ts
        self.inputs = dict(inputs or {})        # {nick: (kind, content id, freeze time)}
        self.phantom = phantom
        self.boxes = {box} if box else set()

    @property
    def ref(self):
        return (self.name, self.cid)

    @property
    def instant(self):
        return beadfile.instant(self.ts)

    def facts(self):
        return (self.name, self.cid, self.kind, self.ts)

    def __repr__(self):
        return f'{self.name}:{self.cid[:6]}@{self.ts[:15]}{"?" if self.phantom else ""}'


class Web:
    def __init__(self, nodes):
        '''nodes: real ones; phantoms are added'''
        self.nodes = {n.ref: n for n in nodes}
        for n in list(self.nodes.values()):
            for nick, (kind, cid, ts) in n.inputs.items():
                if (nick, cid) not in self.nodes:
                    self.nodes[nick, cid] = Node(nick, cid, kind, ts, phantom=True)

    @property
    def edges(self):
        '''{(source ref, destination ref)} - label is the name in the source ref'''
        return {((nick, v[1]), n.ref) for n in self.nodes.values() for nick, v in n.inputs.items()}

    @property
    def names(self):
        return {n.name for n in self.nodes.values()}

    def cluster(self, name):
        return [n for n in self.nodes.values() if n.name == name]

    def ties(self):
        '''names with more than one node at the same moment'''
        seen, out = set(), set()
        for n in self.nodes.values():
            if (n.name, n.instant) in seen:
                out.add(n.name)
            seen.add((n.name, n.instant))
        return out

    # ---- reference algorithms
    def colors(self):
        '''{ref: freshness name}'''
        newest = {}
        for n in self.nodes.values():
            if n.name not in newest or n.instant > newest[n.name].instant:
                newest[n.name] = n
        memo = {}

        def good(ref):
            n = self.nodes[ref]
            return not n.phantom and newest[n.name] is n

        # greatest fixpoint: drop until nothing changes
        fresh = {r for r in self.nodes if good(r)}
        changed = True
        while changed:
            changed = False
            for r in list(fresh):
                if any((nick, v[1]) not in fresh for nick, v in self.nodes[r].inputs.items()):
                    fresh.discard(r)
                    changed = True
        for r, n in self.nodes.items():
            if n.phantom:
                memo[r] = 'PHANTOM'
            elif newest[n.name] is not n:
                memo[r] = 'SUPERSEDED'
            else:
                memo[r] = 'UP_TO_DATE' if r in fresh else 'OUT_OF_DATE'
        return memo

    def heads(self):
        '''web of heads and their inputs'''
        head = {}
        for n in self.nodes.values():
            o = (not n.phantom, n.instant)
            if n.name not in head or o > head[n.name][0]:
                head[n.name] = (o, n)
        heads = {n.ref for _, n in head.values()}
        edges = {(s, d) for s, d in self.edges if d in heads}
        return self.part(heads | {s for s, _ in edges}, edges), heads

    def part(self, refs, edges):
        w = Web([])
        for r in refs:
            n = self.nodes[r]
            w.nodes[r] = Node(n.name, n.cid, n.kind, n.ts, {k: v for k, v in n.inputs.items() if ((k, v[1]), r) in edges}, n.phantom)
        return w

    def filtered(self, sources, sinks):
        '''kept part of the web, and the kept names without any connection'''
        pairs = {(s[0], d[0]) for s, d in self.edges}
        keep = set(self.names)
        if sources:
            keep &= reach(sources & self.names, pairs)
        if sinks:
            keep &= reach(sinks & self.names, {(d, s) for s, d in pairs})
        edges = {(s, d) for s, d in self.edges if s[0] in keep and d[0] in keep}
        connected = {n for e in edges for n in (e[0][0], e[1][0])}
        lone = keep - connected if sources or sinks else set()
        return self.part([r for r in self.nodes if r[0] in keep], edges), lone

    def without(self, names):
        return self.part([r for r in self.nodes if r[0] not in names], self.edges)


def reach(roots, pairs):
    seen, todo = set(), list(roots)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo.extend(d for s, d in pairs if s == x)
    return seen


# how often the same bead is available under more names
ALIASES = .15

SHAPES = ['random', 'random', 'chain', 'diamond', 'wide', 'versions', 'self', 'phantoms', 'cycle of names', 'lone']


def random_plan(rng, n, names, shape=None, ties=False):
    '''
    sequence of (name, instant, input choice) where the input choice is a function of the nodes made so far
    returning {nick: (kind, cid, ts)}
    '''
    shape = shape or rng.choice(SHAPES)
    start = gen.gen_instant(rng)
    used = {}
    taken = set()
    plan = []

    def moment(name, i):
        while True:
            if ties and rng.random() < .3 and used.get(name):
                return rng.choice(sorted(used[name]))
            t = start + (i if rng.random() < .7 else rng.randrange(-n, n + 1)) * 1_000_000 - rng.choice([0, 0, 1, 999])
            if t not in used.setdefault(name, set()):
                used[name].add(t)
                return t

    def ghost(name, nodes):
        t = moment(name, rng.randrange(-2, n + 2))
        cid = '%0128x' % rng.getrandbits(512)
        if nodes and rng.random() < .15:
            # the same content under another name
            x = rng.choice(nodes)
            if (name, x.cid) not in taken and not any(y.ref == (name, x.cid) for y in nodes):
                cid = x.cid
                taken.add((name, cid))
        return (rng.choice(gen.KINDS), cid, beadfile.ts_from_instant(t, rng.choice(gen.OFFSETS)))

    for i in range(n):
        if shape == 'chain':
            name = names[i % len(names)]
        elif shape == 'lone':
            name = rng.choice(names)
        elif shape == 'versions':
            name = names[0] if rng.random() < .6 else rng.choice(names)
        else:
            name = rng.choice(names)
        t = moment(name, i)

        def choose(nodes, i=i, name=name):
            ins = {}

            def use(n):
                ins[n.name] = (n.kind, n.cid, n.ts)
            latest = {}
            for x in nodes:
                if x.name not in latest or x.instant > latest[x.name].instant:
                    latest[x.name] = x
            if shape == 'lone' and rng.random() < .6:
                return ins
            if shape == 'chain' and nodes:
                use(nodes[-1])
            elif shape == 'diamond' and nodes:
                for x in rng.sample(list(latest.values()), min(len(latest), 2)):
                    use(x)
            elif shape == 'wide' and nodes:
                for x in latest.values():
                    if rng.random() < .7:
                        use(x)
            elif shape == 'self' and name in latest and rng.random() < .7:
                use(latest[name])
            elif shape == 'cycle of names' and nodes:
                k = names[(names.index(name) + 1) % len(names)]
                if k in latest:
                    use(latest[k])
            for _ in range(rng.choice([0, 0, 1, 2]) if shape != 'chain' else 0):
                if nodes:
                    use(rng.choice(nodes) if rng.random() < .4 else rng.choice(list(latest.values())))
            if rng.random() < (.5 if shape == 'phantoms' else .1):
                k = rng.choice(names + ['never seen'])
                ins[k] = ghost(k, nodes)
            return ins
        plan.append((name, t, choose))

    def alias(node):
        '''another name for the same bead, or None'''
        if rng.random() > ALIASES:
            return None
        name = rng.choice(names)
        if name == node.name or (name, node.cid) in taken or node.instant in used.setdefault(name, set()):
            return None
        taken.add((name, node.cid))
        used[name].add(node.instant)
        return name
    return shape, plan, alias


def build_fake(rng, n, names, shape=None, ties=False):
    '''web without archives'''
    shape, plan, alias = random_plan(rng, n, names, shape, ties)
    nodes = []
    for name, t, choose in plan:
        ins = choose(nodes)
        node = Node(name, '%0128x' % rng.getrandbits(512), rng.choice(gen.KINDS), beadfile.ts_from_instant(t, rng.choice(gen.OFFSETS)), ins)
        nodes.append(node)
        other = alias(node)
        if other:
            nodes.append(Node(other, node.cid, node.kind, node.ts, ins))
    return shape, Web(nodes)


def build_boxes(rng, n, names, dirs, shape=None, ties=False):
    '''web of archives in boxes: {box name: directory}'''
    shape, plan, alias = random_plan(rng, n, names, shape, ties)
    nodes = []
    for name, t, choose in plan:
        ins = choose(nodes)
        box = rng.choice(list(dirs))
        off = rng.choice(gen.OFFSETS)
        if os.path.exists(os.path.join(dirs[box], f'{name}_{beadfile.ts_from_instant(t, off)}.zip')):
            continue
        bf = put_bead(dirs[box], rng, name, instant=t, offset=off, kind=rng.choice(gen.KINDS), inputs=ins, data={'d': rng.randbytes(5)})
        assert bf.name == name, name
        node = Node(bf.name, bf.content_id, bf.kind, bf.freeze_time_str, normal_inputs(bf.inputs), box=box)
        node.path = bf.path
        nodes.append(node)
        other = alias(node)
        if other:
            box = rng.choice(list(dirs))
            path = os.path.join(dirs[box], f'{other}_{bf.freeze_time_str}.zip')
            if os.path.exists(path):
                continue
            shutil.copy(bf.path, path)
            node = Node(other, bf.content_id, bf.kind, bf.freeze_time_str, normal_inputs(bf.inputs), box=box)
            node.path = path
            nodes.append(node)
    return shape, Web(nodes)


def read_web(path):
    '''[(facts, inputs, freshness name, box name)]'''
    return [seen(b) for b in read_beads(path)]


def seen(b):
    return ((str(b.name), b.content_id, b.kind, b.freeze_time_str), spec_inputs(b.inputs), b.freshness.name, b.box_name)


def compare(want: Web, got, inputs=True):
    '''differences between a web and what was read; [] when the same beads with the same facts and inputs'''
    out = []
    by_ref = {}
    for facts, ins, fresh, box in got:
        ref = facts[:2]
        if ref in by_ref:
            out.append(('twice', ref))
        by_ref[ref] = (facts, ins, fresh, box)
    for r in set(want.nodes) - set(by_ref):
        out.append(('missing', want.nodes[r]))
    for r in set(by_ref) - set(want.nodes):
        out.append(('extra', by_ref[r]))
    for r in set(by_ref) & set(want.nodes):
        n, (facts, ins, fresh, box) = want.nodes[r], by_ref[r]
        if n.facts() != facts:
            out.append(('facts', n.facts(), facts))
        if inputs and n.inputs != ins:
            out.append(('inputs', n, sorted(n.inputs), sorted(ins)))
        if n.phantom != (fresh == 'PHANTOM'):
            out.append(('phantom', n, fresh))
    return out[:6]


WEB_NAMES = [n for n in gen.BEAD_NAMES if n not in ('/', '..')]

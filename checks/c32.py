import os
import shutil
import subprocess
import time

from bead.box import Box, search
from bead.tech.fs import Path

from harness import beadfile, gen, peer, snap, webs
from harness.cli import User, zips
from harness.query import Population, attempt, build, describe, key, random_query, ref_key
from harness.world import box_records, input_tree, random_inputs, ws_trees

PROPERTY = 'C32'
LEVEL = 'exploration'
RULE = ('one case = a random history in which the tool and an independent implementation of the formats of its first version take turns in working with the same registry, boxes '
        '(with or without an index), workspaces and web files; after every step everything is read back by the independent implementation and compared with the expected state, '
        'and what the tool says and finds is compared with it; non-trivial = distinct (who did the step before, step, index, style of the files, number of boxes)')
REQUIRED = {'steps_of_tool': 3000, 'steps_of_peer': 3000, 'saved_by_tool': 700, 'saved_by_peer': 900, 'index_rows': 15000, 'registries_read': 7000, 'workspaces_read': 20000, 'queries': 1000,
            'loaded_by_tool': 700, 'loaded_by_peer': 500, 'webs_by_tool': 150, 'webs_by_peer': 150, 'unzipped': 250, 'unzipped_whole': 30, 'edited_by_tool': 250, 'updated': 200, 'statuses': 300,
            'indexed_by_tool': 200, 'indexed_by_peer': 250, 'refused_boxes': 40, '#state': 500, '#style': 7, '#tool step': 15, '#peer step': 13}
UNZIP = shutil.which('unzip')

NICKS = ['a', 'b', 'in put', 'ünï', "q'", '.h', '[x]', 'x.zip', 'A', '日本', '%41', 'output', 'a\\b', 'new\nline', '~']
NAMES = [n for n in gen.BEAD_NAMES if not n.startswith('-') and not n.endswith('.zip') and len(n) < 100]
BOXES = ['box', 'b2', 'a b', 'ünï', '日本', 'x.y', '[b]', "q'", 'Box', '%']


def plan(tier, rng):
    n = 420 if tier == 'quick' else 5000
    return [dict(index=('plain', 'tool', 'peer')[i % 3], steps=[14, 30, 50][i % 3 if i % 2 else 0], style=peer.Style.NAMES[2:][i % 7] if i % 3 else 'any') for i in range(n)]


class World:
    def __init__(self, case, w):
        self.case, self.w, self.rng = case, w, w.rng
        rng = w.rng
        self.u = User(w)
        self.boxes = []         # [(name, directory)] as registered
        self.dirs = []          # all directories of boxes
        self.ws = {}            # {path: dict(kind, inputs, loaded)}
        self.names = rng.sample(NAMES, 3)
        self.kinds = rng.sample(gen.KINDS, 2)
        self.last = '-'
        self.n = 0
        self.clock = gen.gen_instant(rng)
        self.made = {}          # {content id: BeadFile}
        os.makedirs(self.u.config, exist_ok=True)

    def style(self):
        s = peer.Style(self.rng, None if self.case['style'] == 'any' else self.case['style'])
        self.w.seen('style', s.name)
        return s

    def fresh(self, prefix='d'):
        self.n += 1
        return self.u.path(f'{prefix}{self.n}')

    def moment(self):
        self.clock += self.rng.choice([1, 999_999, 1_000_000, 60_000_000, 86_400_000_000])
        # beads from the future are damaged
        self.clock = min(self.clock, time.time_ns() // 1000 - 1)
        return beadfile.ts_from_instant(self.clock, self.rng.choice(gen.OFFSETS))

    # ---- what there is
    def records(self, box=None):
        '''readable beads of registered boxes'''
        out = []
        for n, d in self.boxes:
            if box in (None, n):
                out.extend(box_records(d, n))
        return out

    def indexed(self, d):
        return os.path.exists(peer.index_path(d))

    def some_ws(self):
        return self.rng.choice(sorted(self.ws)) if self.ws else None

    def box(self):
        return self.rng.choice(self.boxes) if self.boxes else None

    # ---- the state is what it is expected to be
    def verify(self, info):
        w = self.w
        got = peer.read_registry(self.u.registry_file)
        w.count('registries_read')
        w.check(got == self.boxes, 'registry is not readable as before', got=got, want=self.boxes, **info)
        for ws, m in self.ws.items():
            kind, inputs = peer.read_ws(ws)
            w.count('workspaces_read')
            w.check((kind, inputs) == (m['kind'], m['inputs']), 'workspace is not readable as before', ws=ws, got=repr((kind, inputs))[:500], want=repr((m['kind'], m['inputs']))[:500], **info)
            there = sorted(n for n in os.listdir(os.path.join(ws, 'input')))
            w.check(there == sorted(m['loaded']), 'inputs of the workspace are not where they were', got=there, want=sorted(m['loaded']), **info)
            for nick, data in m['loaded'].items():
                w.check(input_tree(ws, nick) == data, 'data of an input is not what it was', ws=ws, nick=nick, **info)
        for d in self.dirs:
            if self.indexed(d):
                rows = sorted(peer.index_rows(d))
                want = sorted(peer.row_of(b) for b in box_records(d))
                w.count('index_rows', len(rows))
                w.check(rows == want, 'index is not readable as before', missing=[r for r in want if r not in rows][:2], extra=[r for r in rows if r not in want][:2], **info)

    def saved(self, d, ws, before, info):
        '''a new archive in d is of the workspace'''
        w = self.w
        new = sorted(set(zips(d)) - set(before))
        if not w.check(len(new) == 1, 'not one archive was made', new=new, **info):
            return None
        bf = beadfile.BeadFile(os.path.join(d, new[0]))
        m = self.ws[ws]
        code, data = ws_trees(ws)
        w.check(not bf.problems and bf.code == code and bf.data == data and bf.kind == m['kind'] and beadfile.normal_inputs(bf.inputs) == m['inputs'] and bf.name == os.path.basename(ws),
                'archive is not what the format says', problems=bf.problems, name=bf.name, **info)
        w.check(os.path.basename(bf.path) == f'{bf.name}_{bf.freeze_time_str}.zip', 'archive has another name', file=bf.path, **info)
        self.clock = max(self.clock, bf.instant)
        return bf


# ---- steps of the independent implementation

def p_box_add(o):
    n = o.rng.choice(BOXES)
    if n in [b[0] for b in o.boxes] or len(o.boxes) > 3:
        return False
    d = o.fresh('box')
    os.mkdir(d)
    if o.case['index'] == 'peer':
        peer.index_create(d, [])
    o.dirs.append(d)
    o.boxes = o.boxes + [(n, d)]
    peer.write_registry(o.u.registry_file, o.boxes, o.style())


def p_box_forget(o):
    if len(o.boxes) < 2:
        return False
    o.boxes = [b for b in o.boxes if b != o.rng.choice(o.boxes)]
    peer.write_registry(o.u.registry_file, o.boxes, o.style())


def p_box_reorder(o):
    if len(o.boxes) < 2:
        return False
    o.boxes = o.rng.sample(o.boxes, len(o.boxes))
    peer.write_registry(o.u.registry_file, o.boxes, o.style())


def p_new(o):
    ws = os.path.join(o.fresh('p'), o.rng.choice(o.names))
    kind = o.rng.choice(o.kinds)
    inputs = {n: v for n, v in random_inputs(o.rng, names=NICKS).items()}
    peer.make_ws(ws, kind, inputs, o.style())
    gen.write_tree(ws, gen.gen_tree(o.rng, n=3, top_reserved=gen.TOP_RESERVED))
    gen.write_tree(os.path.join(ws, 'output'), gen.gen_tree(o.rng, n=2))
    o.ws[ws] = dict(kind=kind, inputs=inputs, loaded={})


def p_save(o):
    ws, box = o.some_ws(), o.box()
    if not ws or not box:
        return False
    bf = peer.save(ws, box[1], os.path.basename(ws), o.moment(), o.rng, o.style())
    assert not bf.problems, bf.problems
    if o.indexed(box[1]):
        peer.index_put(box[1], bf)
    o.w.count('saved_by_peer')


def p_edit(o):
    rs = o.records()
    if not rs:
        return False
    bf = o.rng.choice(rs)
    ws = os.path.join(o.fresh('pe'), bf.name)
    peer.make_ws(ws, bf.kind, beadfile.normal_inputs(bf.inputs), o.style())
    gen.write_tree(ws, bf.code)
    o.ws[ws] = dict(kind=bf.kind, inputs=beadfile.normal_inputs(bf.inputs), loaded={})


def p_input(o):
    ws, rs = o.some_ws(), o.records()
    nick = o.rng.choice(NICKS)
    if not ws or not rs or nick in o.ws[ws]['inputs']:
        return False
    bf = o.rng.choice(rs)
    m = o.ws[ws]
    m['inputs'] = {**m['inputs'], nick: (bf.kind, bf.content_id, bf.freeze_time_str)}
    peer.write_meta(ws, m['kind'], m['inputs'], o.style())
    if o.rng.random() < .7:
        peer.load_input(ws, nick, bf.data)
        m['loaded'][nick] = bf.data
        o.w.count('loaded_by_peer')


def p_unload(o):
    ws = o.some_ws()
    if not ws or not o.ws[ws]['loaded']:
        return False
    nick = o.rng.choice(sorted(o.ws[ws]['loaded']))
    peer.unload_input(ws, nick)
    del o.ws[ws]['loaded'][nick]


def p_delete(o):
    ws = o.some_ws()
    if not ws or not o.ws[ws]['inputs']:
        return False
    m = o.ws[ws]
    nick = o.rng.choice(sorted(m['inputs']))
    if nick in m['loaded']:
        peer.unload_input(ws, nick)
        del m['loaded'][nick]
    m['inputs'] = {k: v for k, v in m['inputs'].items() if k != nick}
    peer.write_meta(ws, m['kind'], m['inputs'], o.style())


def p_rewrite(o):
    '''another version of the tool writes the same'''
    ws = o.some_ws()
    if ws:
        peer.write_meta(ws, o.ws[ws]['kind'], o.ws[ws]['inputs'], o.style())
    if o.boxes:
        peer.write_registry(o.u.registry_file, o.boxes, o.style())


def p_index(o):
    box = o.box()
    if not box or o.case['index'] == 'plain':
        return False
    if o.indexed(box[1]):
        os.unlink(peer.index_path(box[1]))
    peer.index_create(box[1], box_records(box[1]))
    o.w.count('indexed_by_peer')


def p_deindex(o):
    box = o.box()
    if not box or not o.indexed(box[1]) or o.rng.random() < .5:
        return False
    os.unlink(peer.index_path(box[1]))


def p_remove(o):
    rs = o.records()
    if len(rs) < 4:
        return False
    bf = o.rng.choice(rs)
    os.unlink(bf.path)
    d = os.path.dirname(bf.path)
    if o.indexed(d):
        peer.index_remove(d, bf)


def p_web(o):
    '''a web of the other user'''
    u, w, rng = o.u, o.w, o.rng
    names = rng.sample(gen.BEAD_NAMES, 4)
    _, web = webs.build_fake(rng, rng.choice([1, 4, 12]), names)
    entries = [peer.web_entry(n.name, n.cid, n.kind, n.ts, n.inputs, rng.choice(['SUPERSEDED', 'UP_TO_DATE', 'OUT_OF_DATE']), 'their') for n in web.nodes.values() if not n.phantom]
    if not entries:
        return False
    rng.shuffle(entries)
    f, g = o.fresh('web'), o.fresh('web')
    peer.write_web(f, entries, o.style())
    u.must('web', 'load', f, 'save', g)
    got = peer.read_web(g)
    flat = lambda n, fresh: (n.name, n.cid, n.kind, n.ts, sorted(n.inputs.items()), fresh)
    real = [n for n in web.nodes.values() if not n.phantom]
    w.check(sorted((*x[:4], sorted(x[4].items())) for x in got if x[5] != 'PHANTOM') == sorted(flat(n, 0)[:5] for n in real), 'web written earlier is read as something else', got=len(got), want=len(real))
    old = {(e['name'], e['content_id']): e['freshness']['value'] for e in entries}
    w.check({x[:2]: x[5] for x in got if x[5] != 'PHANTOM'} == old, 'colours of a web written earlier are read as something else')
    w.check(all(x[6] == 'their' for x in got if x[5] != 'PHANTOM'), 'boxes of a web written earlier are lost')
    u.must('web', 'load', f, 'color', 'save', g)
    colours = web.colors()
    if not web.ties():
        want = sorted(flat(n, colours[n.ref]) for n in web.nodes.values())
        got = sorted((*x[:4], sorted(x[4].items()), x[5]) for x in peer.read_web(g))
        w.check(got == want, 'web written earlier is coloured as something else', differ=[(x[0], x[1][:8], x[5]) for x in got if x not in want][:4], want=[(x[0], x[1][:8], x[5]) for x in want if x not in got][:4])
    w.count('webs_by_peer')


# ---- steps of the tool

def t_box_add(o):
    n = o.rng.choice(BOXES)
    if len(o.boxes) > 3:
        return False
    if o.boxes and o.rng.random() < .3:
        n, d = o.rng.choice(o.boxes)
        r = o.u.bead('box', 'add', *((n, o.u.mkdir('other')) if o.rng.random() < .5 else ('another', d)))
        o.w.check(r.crash is None and r.code != 0 or 'ERROR' in r.text, 'a box registered earlier is not noticed', boxes=o.boxes, result=repr(r))
        o.w.count('refused_boxes')
        return
    if n in [b[0] for b in o.boxes]:
        return False
    d = o.fresh('box')
    os.mkdir(d)
    o.dirs.append(d)
    o.u.must('box', 'add', n, d)
    if o.case['index'] == 'tool':
        o.u.must('box', 'index', '--box', n)
    o.boxes = o.boxes + [(n, d)]


def t_box_forget(o):
    if len(o.boxes) < 2:
        return False
    b = o.rng.choice(o.boxes)
    o.u.must('box', 'forget', b[0])
    o.boxes = [x for x in o.boxes if x != b]


def t_box_list(o):
    r = o.u.must('box', 'list')
    at = 0
    for n, d in o.boxes:
        at = r.out.find(d, at)
        o.w.check(at >= 0 and n in r.out, 'a registered box is not listed, or in another order', box=n, out=r.out)


def t_new(o):
    ws = os.path.join(o.fresh('t'), o.rng.choice(o.names))
    os.mkdir(os.path.dirname(ws))
    o.u.must('new', ws)
    kind, inputs = peer.read_ws(ws)
    o.w.check(inputs == {} and kind and all(os.path.isdir(os.path.join(ws, d)) for d in ('input', 'output', 'temp')), 'a new workspace is not as earlier', inputs=inputs, kind=kind)
    o.ws[ws] = dict(kind=kind, inputs={}, loaded={})
    gen.write_tree(ws, gen.gen_tree(o.rng, n=3, top_reserved=gen.TOP_RESERVED))
    gen.write_tree(os.path.join(ws, 'output'), gen.gen_tree(o.rng, n=2))


def t_save(o):
    ws, box = o.some_ws(), o.box()
    if not ws or not box:
        return False
    before = zips(box[1])
    o.u.must('save', *([box[0]] if len(o.boxes) > 1 or o.rng.random() < .5 else []), cwd=o.rng.choice([ws, os.path.join(ws, 'output')]))
    bf = o.saved(box[1], ws, before, {})
    o.w.count('saved_by_tool')
    if bf and o.rng.random() < .4:
        o.w.check(peer.damage_of_zip(bf.path) is None, 'archive is damaged for others')
        if UNZIP:
            d = o.fresh('unzipped')
            r = subprocess.run([UNZIP, '-tqq', bf.path], stdin=subprocess.DEVNULL, capture_output=True)
            o.w.check(r.returncode == 0, 'archive is damaged for unzip', out=(r.stdout + r.stderr)[-300:])
            plain = {n: b for n, b in bf.members.items() if n.isascii() and n.isprintable() and '\\' not in n and not set(n) & set('*?[];')}
            if plain and len(plain) == len(bf.members):
                subprocess.run([UNZIP, '-qq', bf.path, '-d', d], stdin=subprocess.DEVNULL, capture_output=True)
                o.w.check(snap.tree_files(d) == plain, 'archive is unzipped as something else', got=sorted(snap.tree_files(d)), want=sorted(plain))
                o.w.count('unzipped_whole')
        o.w.count('unzipped')


def newest(records):
    top = max(b.instant for b in records)
    return [b for b in records if b.instant == top]


def t_edit(o):
    rs = o.records()
    if not rs:
        return False
    b = o.rng.choice(rs)
    ws = os.path.join(o.fresh('te'), b.name)
    os.mkdir(os.path.dirname(ws))
    if o.rng.random() < .4:
        o.u.must('edit', b.path, ws)
        want = [b]
    else:
        o.u.must('edit', b.name, ws)
        want = newest([r for r in rs if r.name == b.name])
    state = (*peer.read_ws(ws), ws_trees(ws)[0])
    o.w.check(any(state == (x.kind, beadfile.normal_inputs(x.inputs), x.code) for x in want), 'a bead is not edited as saved', name=b.name, state=repr(state)[:600])
    o.w.check(os.listdir(os.path.join(ws, 'input')) == [], 'inputs are there after edit')
    o.ws[ws] = dict(kind=state[0], inputs=state[1], loaded={})
    o.w.count('edited_by_tool')


def record(b):
    return (b.kind, b.content_id, b.freeze_time_str)


def t_input_add(o):
    ws, rs = o.some_ws(), o.records()
    nick = o.rng.choice(NICKS)
    if not ws or not rs or nick in o.ws[ws]['inputs']:
        return False
    b = o.rng.choice(rs)
    # file names are preferred to names of beads
    if o.rng.random() < .4 or os.path.isfile(os.path.join(ws, b.name)):
        o.u.must('input', 'add', nick, b.path, cwd=ws)
        want = [b]
    else:
        o.u.must('input', 'add', nick, b.name, cwd=ws)
        want = newest([r for r in rs if r.name == b.name])
    loaded(o, ws, nick, want)


def loaded(o, ws, nick, want):
    m = o.ws[ws]
    got = peer.read_ws(ws)[1].get(nick), input_tree(ws, nick) if os.path.isdir(os.path.join(ws, 'input', nick)) else None
    good = [b for b in want if got == (record(b), b.data)]
    if o.w.check(good, 'an input is not loaded as saved', nick=nick, got=repr(got)[:500], want=repr([(record(b), b.data) for b in want])[:500]):
        m['inputs'] = {**m['inputs'], nick: got[0]}
        m['loaded'][nick] = got[1]
        o.w.count('loaded_by_tool')


def known(o, ws, loaded):
    '''inputs with data somewhere: [(nick, archives)]'''
    rs = o.records()
    m = o.ws[ws]
    out = []
    for n, v in sorted(m['inputs'].items()):
        x = [b for b in rs if b.content_id == v[1]]
        if x and (n in m['loaded']) == loaded:
            out.append((n, x))
    return out


def t_load(o):
    ws = o.some_ws()
    inputs = ws and known(o, ws, False)
    if not inputs:
        return False
    nick, want = o.rng.choice(inputs)
    o.u.must('input', 'load', nick, cwd=ws)
    loaded(o, ws, nick, want)


def t_load_again(o):
    '''what the peer has loaded is loaded'''
    ws = o.some_ws()
    if not ws or not o.ws[ws]['loaded']:
        return False
    before = snap.snapshot(ws)
    nick = o.rng.choice(sorted(o.ws[ws]['loaded']))
    r = o.u.bead('input', 'load', nick, cwd=ws)
    o.w.check(r.crash is None and snap.snapshot(ws) == before, 'what is loaded is loaded again', result=repr(r))


def t_unload(o):
    ws = o.some_ws()
    if not ws or not o.ws[ws]['loaded']:
        return False
    nick = o.rng.choice(sorted(o.ws[ws]['loaded']))
    o.u.must('input', 'unload', nick, cwd=ws)
    del o.ws[ws]['loaded'][nick]


def t_delete(o):
    ws = o.some_ws()
    if not ws or not o.ws[ws]['inputs']:
        return False
    nick = o.rng.choice(sorted(o.ws[ws]['inputs']))
    o.u.must('input', o.rng.choice(['delete', 'rm']), nick, cwd=ws)
    o.ws[ws]['loaded'].pop(nick, None)
    o.ws[ws]['inputs'] = {k: v for k, v in o.ws[ws]['inputs'].items() if k != nick}


def t_update(o):
    ws, rs = o.some_ws(), o.records()
    if not ws:
        return False
    m = o.ws[ws]
    could = [(n, [b for b in rs if b.kind == v[0]]) for n, v in sorted(m['inputs'].items())]
    could = [(n, c) for n, c in could if c]
    if not could:
        return False
    nick, candidates = o.rng.choice(could)
    o.u.must('input', 'update', nick, cwd=ws)
    loaded(o, ws, nick, newest(candidates))
    o.w.count('updated')


def t_status(o):
    ws = o.some_ws()
    if not ws:
        return False
    m = o.ws[ws]
    r = o.u.must('status', '-v', cwd=ws)
    o.w.check(m['kind'] in r.out, 'kind of the workspace is not told', out=r.out[-500:])
    for n, (kind, cid, ts) in m['inputs'].items():
        at = r.out.find(f'input/{n}\n')
        if o.w.check(at >= 0, 'an input is not told', nick=n, out=r.out[-500:]):
            part = r.out[at:].split('\n\tBox[es]')[0]
            o.w.check(cid in part and kind in part and ts in part and ('NOT LOADED' in part) == (n not in m['loaded']), 'another input is told', nick=n, part=part, loaded=n in m['loaded'])
            name = [b.name for b in o.records() if b.content_id == cid]
            o.w.check(('**MISSING**' in part) == (not name) and (not name or any(f'Bead:        {x} #' in part for x in name)), 'bead of an input is told as another', nick=n, part=part, want=name)
    o.w.count('statuses')


def t_index(o):
    box = o.box()
    if not box or o.case['index'] == 'plain':
        return False
    how = ['index', 'reindex'][o.rng.randrange(2)]
    r = o.u.must('box', how, *o.rng.choice([['--box', box[0]], ['--dir', box[1]]]))
    o.w.check('Failed' not in r.out and o.indexed(box[1]), 'index is not made', how=how, out=r.out)
    o.w.count('indexed_by_tool')


def t_query(o):
    if not o.boxes:
        return False
    rs = o.records()
    pop = Population.__new__(Population)
    pop.w, pop.rng, pop.names, pop.kinds, pop.base = o.w, o.rng, o.names, o.kinds, o.clock
    pop.instants, pop.dirs, pop.rich = [b.instant for b in rs] or [o.clock], dict(o.boxes), False
    for _ in range(4):
        q = random_query(o.rng, pop, rs)
        boxes = [Box(n, Path(d)) for n, d in o.boxes]
        want = sorted(ref_key(b) for b in rs if all(p(b) for _, _, p in q))
        got = sorted(map(key, build(search(boxes), q).all()))
        o.w.count('queries')
        o.w.check(got == want, 'beads found differ', query=describe(q), missing=[x for x in want if x not in got][:2], extra=[x for x in got if x not in want][:2])
    for found in search([Box(n, Path(d)) for n, d in o.boxes]).all()[:3]:
        kind, a = attempt(Box(found.box_name, Path(dict(o.boxes)[found.box_name])).resolve, found)
        if o.w.check(kind == 'ok', 'a found bead can not be used', error=repr(a)):
            a.validate()


def t_web(o):
    f = o.fresh('web')
    rs = o.records()
    seen = {}
    for b in rs:
        seen.setdefault((b.name, b.content_id), b)
    o.u.must('web', 'save', f)
    got = {x[:2]: x for x in peer.read_web(f) if x[5] != 'PHANTOM'}
    want = {k: (*k, b.kind, b.freeze_time_str, beadfile.normal_inputs(b.inputs)) for k, b in seen.items()}
    o.w.check({k: x[:5] for k, x in got.items()} == want, 'saved web is not readable as before', got=sorted(k[0] for k in got), want=sorted(k[0] for k in want))
    o.w.check(all(x[6] in [n for n, _ in o.boxes] for x in got.values()), 'boxes of a saved web differ')
    o.w.count('webs_by_tool')


def steps(prefix):
    return sorted(((n, f) for n, f in globals().items() if n.startswith(prefix)), key=lambda x: x[0])


WEIGHT = {'t_save': 4, 'p_save': 4, 't_input_add': 4, 'p_input': 4, 't_load': 3, 't_update': 3, 't_edit': 2, 't_status': 2, 't_query': 2, 'p_new': 2, 't_new': 2, 't_index': 2, 'p_index': 2}


def run_case(case, w):
    o = World(case, w)
    rng = w.rng
    by = {'tool': [x for n, f in steps('t_') for x in [(n, f)] * WEIGHT.get(n, 1)], 'peer': [x for n, f in steps('p_') for x in [(n, f)] * WEIGHT.get(n, 1)]}
    start = [p_box_add, p_new, p_save] if rng.random() < .5 else [t_box_add, t_new, t_save]
    for f in start:
        while f(o) is False:
            pass
        o.verify(dict(step=f.__name__))
    end = time.monotonic() + 60
    for i in range(case['steps']):
        who = rng.choice(['tool', 'peer'])
        for _ in range(10):
            name, f = rng.choice(by[who])
            if f(o) is not False:
                break
        else:
            continue
        w.count(f'steps_of_{who}')
        w.seen(f'{who} step', name)
        w.seen('state', [o.last, name, case['index'], case['style'], len(o.boxes)])
        o.last = who
        o.verify(dict(step=name, index=case['index'], style=case['style']))
        if time.monotonic() > end:
            break

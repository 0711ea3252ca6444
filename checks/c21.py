import html
import json
import os
import re
import shutil
import subprocess
import xml.etree.ElementTree as ET

from harness import beadfile, gen, webs
from harness.cli import User
from harness.query import spec_inputs

PROPERTY = 'C21'
LEVEL = 'exploration'
RULE = ('one case = boxes with a random web of beads with hostile names, kinds and inputs; the web read from all boxes is compared with the '
        'independently parsed archives, saved and reloaded repeatedly, coloured and reduced, and its drawing is parsed by graphviz and compared bead '
        'by bead and connection by connection; non-trivial = distinct (names, colours, number of connections) tuples drawn')
REQUIRED = {'webs': 100, 'saved': 250, 'reloads': 250, 'drawings': 200, 'beads_drawn': 2000, 'connections_drawn': 1500, 'rendered': 50, 'copies': 30,
            'hostile_names': 300, '#drawing': 100, '#colour': 4}

NAMES = [n for n in gen.BEAD_NAMES] + [
    '"', '\\', 'a\\', '\\"', '\\N', '\\G', 'a\\nb', '\\l', '&amp;', '&#65;', '&', '&lt', '<', '>', '<br/>', ']]>', '-->', '<!--', 'a\nb', 'tab\t',
    '%', '\u200b', '😀', '[label=x]', '{', '}', '|', 'a|b', ':', 'x:out_y', 'cluster_x', 'unique_1', 'unique_2', '***', '*', '#', ';', 'a->b', '->',
    'digraph', 'node', 'edge', 'c\rr', 'v\x0bt', 'l\u2028s', '\x7f', 'ctl\x01', 'esc\x1b[31m', 'n\x85l', 'ÿ', 'und\udcffec', 'a' * 200, '@encoding', '\\\\', '\\\n', 'x\\\\"', 'nc\ufffe', '&nbsp;',
    '\ufeffbom', '\u202ertl', 'ΐ', 'ﬁ', '&#0;', '&#x1;', '\\E', '\\T', '\\H', '\\L',
]
COLOURS = {'PHANTOM': {'red'}, 'SUPERSEDED': {'grey', 'gray'}, 'UP_TO_DATE': {'green'}, 'OUT_OF_DATE': {'orange', 'yellow'}}
HAVE_DOT = shutil.which('dot') is not None


def plan(tier, rng):
    n = 260 if tier == 'quick' else 3000
    return [dict(size=[2, 4, 8, 16, 30][i % 5], boxes=1 + i % 3, render=i % 2 == 0) for i in range(n)]


def xml_safe(s):
    return re.sub('[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]', '', s)


def plain(s):
    '''what is left of a text when drawn'''
    return re.sub('[\\s\x00-\x1f\x7f-\x9f\ufffd-\uffff\u2028\u2029\ud800-\udfff]+', '', s)


def unescape(s):
    '''backslash escapes of labels'''
    return re.sub(r'\\(.)', lambda m: m.group(1) if m.group(1) == '\\' else '<?' + m.group(1) + '>', s, flags=re.S)


def parse(w, dot_file, info):
    '''(clusters {name: [(port, port, colour, colour, text)]}, connections [(name, port, name, port, label)])'''
    p = subprocess.run(['dot', '-Tdot_json', dot_file], stdin=subprocess.DEVNULL, capture_output=True, timeout=100)
    if not w.check(p.returncode == 0 and not p.stderr.strip(), 'drawing is not well-formed', err=p.stderr.decode(errors='replace')[:600], **info):
        return None
    j = json.loads(p.stdout.decode('utf-8', 'replace'), strict=False)
    clusters, node_name, ids = {}, {}, {}
    for o in j.get('objects', []):
        label = o.get('label', '')
        ids[o['_gvid']] = o
        if not label.lstrip().startswith('<'):
            continue
        try:
            t = ET.fromstring('<root>' + label + '</root>')
        except ET.ParseError as e:
            w.violate('drawing of a computation is not well-formed', label=label[:300], error=str(e), **info)
            return None
        rows, texts = [], []
        for tr in t.iter('TR'):
            tds = list(tr.iter('TD'))
            if any(td.get('PORT') for td in tds):
                rows.append([(td.get('PORT'), td.get('BGCOLOR'), ''.join(td.itertext())) for td in tds])
            else:
                texts.append(''.join(''.join(td.itertext()) for td in tds))
        name = unescape(''.join(texts))
        if not rows:
            continue
        w.check(name not in clusters, 'a computation is drawn twice', name=name, **info)
        clusters[name] = rows
        node_name[o['_gvid']] = name
    outgoing = {}
    starts = []
    for e in j.get('edges', []):
        if e['tail'] in node_name:
            starts.append(e)
        else:
            outgoing.setdefault(e['tail'], []).append(e)
    connections = []
    for e in starts:
        labels, src, port = [], node_name[e['tail']], e.get('tailport', '')
        path = 0
        while True:
            if e.get('label'):
                labels.append(e['label'])
            if e['head'] in node_name:
                break
            nxt = outgoing.get(e['head'], [])
            path += 1
            if not w.check(len(nxt) == 1 and path < 50, 'drawing of a connection is broken', nexts=len(nxt), **info):
                return None
            e = nxt[0]
        connections.append((src, port, node_name[e['head']], e.get('headport', ''), [html.unescape(unescape(l)) for l in labels]))
    return clusters, connections


def check_drawing(w, web, colours, dot_file, info):
    if not HAVE_DOT:
        return
    r = parse(w, dot_file, info)
    if r is None:
        return
    w.count('drawings')
    clusters, connections = r
    # characters that can not be shown are replaced with something
    name_of = {plain(n): n for n in web.names}
    w.check(set(map(plain, clusters)) == set(map(plain, web.names)) and len(clusters) == len(web.names), 'drawn computations differ',
            missing=sorted(web.names - set(clusters))[:5], extra=sorted(set(clusters) - web.names)[:5], **info)
    drawn = []
    true_name = lambda text: text if text in web.names else name_of.get(plain(text), text)
    connections = [(true_name(s), sp, true_name(d), dp, list(map(true_name, l))) for s, sp, d, dp, l in connections]
    clusters = {true_name(k): v for k, v in clusters.items()}
    for name, rows in clusters.items():
        for row in rows:
            cids = {n.cid for n in web.nodes.values() if any(n.cid in (port or '') for port, _, _ in row)}
            if not w.check(len(cids) == 1, 'a drawn row does not belong to one bead', name=name, row=row, **info):
                continue
            cid, = cids
            ref = (name, cid)
            node = web.nodes.get(ref)
            if not w.check(node is not None, 'drawn bead does not exist', ref=ref, **info):
                continue
            drawn.append(ref)
            ok = COLOURS[colours[ref]]
            cs = {(c or '').split(':')[0] for _, c, _ in row}
            w.check(cs <= ok and cs, 'bead is not coloured by its freshness', colour=sorted(cs), freshness=colours[ref], **info)
            w.seen('colour', [colours[ref]])
            text = ' '.join(t for _, _, t in row)
            y = node.ts
            w.check(all(x in text for x in (y[:4], y[4:6], y[6:8], y[9:11], y[11:13], y[13:15])), 'drawn bead shows another time', text=text, time=y, **info)
            w.count('beads_drawn')
    w.check(len(drawn) == len(set(drawn)), 'a bead is drawn twice', **info)
    w.check(set(drawn) == set(web.nodes), 'a bead is not drawn', missing=list(set(web.nodes) - set(drawn))[:4], **info)
    got = []
    for src, sp, dst, dp, labels in connections:
        s = [n.ref for n in web.cluster(src) if n.cid in sp]
        d = [n.ref for n in web.cluster(dst) if n.cid in dp]
        if not w.check(len(s) == 1 and len(d) == 1, 'connection does not connect beads', ends=(src, sp[:40], dst, dp[:40]), **info):
            continue
        w.check(len(labels) == 1 and labels[0] == s[0][0], 'connection does not show the name of the input', labels=labels, source=s[0][0], **info)
        # inputs come in on one side and go out on the other
        rs = [row for row in clusters[src] if any(s[0][1] in (p or '') for p, _, _ in row)][0]
        ports = [p for p, _, _ in rs]
        w.check(any(sp.split(':')[0] == p for p in ports), 'connection does not start at the bead', port=sp, ports=ports, **info)
        got.append((s[0], d[0]))
        w.count('connections_drawn')
    w.check(len(got) == len(set(got)), 'a connection is drawn twice', **info)
    w.check(set(got) == web.edges, 'drawn connections differ', missing=list(web.edges - set(got))[:3], extra=list(set(got) - web.edges)[:3], **info)
    w.seen('drawing', [sorted(web.names)[:3], sorted(set(colours.values())), len(got)])
    if len(got) > 2:
        w.sample(dict(names=sorted(web.names)[:6], beads=len(drawn), connections=len(got)))


def check_rendering(w, u, web, info):
    '''what is visible in the picture'''
    if not HAVE_DOT:
        return
    r = u.must('web', 'load', 'final.web', 'svg', 'final.svg')
    text = xml_safe(open(u.path('final.svg'), encoding='utf-8', errors='replace').read())
    try:
        t = ET.fromstring(text)
    except ET.ParseError as e:
        if all(n == xml_safe(n) for n in web.names):
            w.violate('picture is not well-formed', error=str(e), **info)
        return
    shown = plain(' '.join(''.join(x.itertext()) for x in t.iter('{http://www.w3.org/2000/svg}text')))
    for n in web.names:
        w.check(plain(n) in shown, 'name is not shown in the picture', name=n, **info)
    w.count('rendered')


def run_case(case, w):
    rng = w.rng
    u = User(w)
    dirs = {f'b{i}': u.add_box(f'b{i}') for i in range(case['boxes'])}
    pool = [n for n in NAMES if beadfile.name_from_file(n + '_20200101T000000000000+0000.zip') == n and len(os.fsencode(n)) < 220]
    names = rng.sample(pool, rng.choice([1, 2, 3, 5, 9]))
    w.count('hostile_names', len(names))
    shape, web = webs.build_boxes(rng, case['size'], names, dirs)
    real = [n for n in web.nodes.values() if not n.phantom]
    where = {n.ref: set(n.boxes) for n in real}
    for _ in range(rng.choice([0, 0, 1, 3])):
        n = rng.choice(real)
        b = rng.choice(list(dirs))
        t = os.path.join(dirs[b], os.path.basename(n.path))
        if not os.path.exists(t):
            shutil.copy(n.path, t)
            where[n.ref].add(b)
            w.count('copies')
    if rng.random() < .3:
        u.must('box', 'index', '--all')
    w.count('webs')
    info = dict(shape=shape, names=names)
    u.must('web', 'save', 'a.web')
    got = webs.read_web(u.path('a.web'))
    w.count('saved')
    d = webs.compare(web, got)
    w.check(not d, 'web of the boxes differs from the beads in them', diff=d, **info)
    for facts, ins, fresh, box in got:
        if fresh != 'PHANTOM':
            w.check(box in where.get(facts[:2], ()), 'wrong box of a bead', box=box, bead=facts[:2], **info)
    # pipelines leading to various colours and parts
    steps = rng.choice([['color'], ['color'], ['color', 'heads'], ['heads'], ['heads', 'color'], ['color', '/', rng.choice(names), '..', '/'], []])
    u.must('web', *(['load', 'a.web'] if rng.random() < .5 else []), *steps, 'save', 'b.web', 'dot', 'b.dot') if steps else u.must('web', 'save', 'b.web', 'dot', 'b.dot')
    last = webs.read_web(u.path('b.web'))
    w.count('saved')
    info['steps'] = steps
    # saving and loading again, in one process or in several
    again = [['load', 'b.web', 'save', 'final.web'], ['load', 'b.web', 'save', 'c.web', 'load', 'c.web', 'save', 'final.web']]
    u.must('web', *rng.choice(again))
    reloaded = webs.read_web(u.path('final.web'))
    w.count('reloads')
    norm = lambda l: sorted((f, sorted(i.items()), c, b) for f, i, c, b in l)
    w.check(norm(reloaded) == norm(last), 'reloaded web differs from the saved', diff=[x for x in norm(last) if x not in norm(reloaded)][:3], **info)
    # drawing of the same, before and after reloading
    now = webs.Web([])
    for facts, ins, fresh, box in last:
        now.nodes[facts[:2]] = webs.Node(*facts, ins, fresh == 'PHANTOM')
    if steps in (['color'], []):
        w.check(not webs.compare(web, last), 'colouring or drawing changed the web', **info)
    colours = {f[:2]: c for f, _, c, _ in last}
    check_drawing(w, now, colours, u.path('b.dot'), info)
    u.must('web', 'load', 'final.web', 'dot', 'c.dot')
    check_drawing(w, now, colours, u.path('c.dot'), dict(info, reloaded=True))
    w.count('reloads')
    if case['render'] and len(now.nodes) < 20 and not any(re.search(r'&#?\w+;', n) for n in names):  # graphviz does not escape what looks like an entity in SVG
        check_rendering(w, u, now, info)

'''
An independent implementation of the tool, that reads and writes the formats of its first version.

Shares no code with /repo: what it writes is what a user has from earlier, what it reads is what another user with an earlier version can use.
'''
import contextlib
import json
import os
import sqlite3
import zipfile

from . import beadfile, gen

SCHEMA = [
    '''CREATE TABLE IF NOT EXISTS beads (
            name TEXT NOT NULL,
            content_id TEXT NOT NULL,
            kind TEXT NOT NULL,
            freeze_time_str TEXT NOT NULL,
            freeze_time_unix INTEGER NOT NULL,
            file_path TEXT NOT NULL,
            PRIMARY KEY (name, content_id)
        )''',
    'CREATE INDEX IF NOT EXISTS idx_beads_freeze_time_unix ON beads(freeze_time_unix)',
    '''CREATE TABLE IF NOT EXISTS inputs (
            bead_name TEXT NOT NULL,
            bead_content_id TEXT NOT NULL,
            input_name TEXT NOT NULL,
            input_kind TEXT NOT NULL,
            input_content_id TEXT NOT NULL,
            input_freeze_time_str TEXT NOT NULL,
            FOREIGN KEY (bead_name, bead_content_id) REFERENCES beads(name, content_id)
        )''']


class Style:
    '''the many ways the same json document can be written'''
    NAMES = ['classic', 'classic', 'classic', 'compact', 'utf8', 'reversed', 'spaced', 'crlf', 'extra']

    def __init__(self, rng, name=None):
        self.rng, self.name = rng, name or rng.choice(self.NAMES)

    def dumps(self, obj, extra=True):
        s = self.name
        if s == 'extra' and extra and isinstance(obj, dict):
            obj = {**obj, 'added later': {'x': [1, None, 'ü']}, 'comment': ''}
        if s == 'compact':
            return json.dumps(obj, separators=(',', ':'))
        if s == 'utf8':
            t = json.dumps(obj, ensure_ascii=False, indent=1)
            try:
                t.encode()
                return t
            except UnicodeEncodeError:
                return json.dumps(obj)
        if s == 'reversed':
            def rev(x):
                if isinstance(x, dict):
                    return {k: rev(x[k]) for k in reversed(list(x))}
                return [rev(y) for y in x] if isinstance(x, list) else x
            return json.dumps(rev(obj), indent=4)
        if s == 'spaced':
            return '\n \t' + json.dumps(obj, indent='\t', separators=(' , ', ' : ')) + '\n\n'
        if s == 'crlf':
            return json.dumps(obj, indent=4, sort_keys=True).replace('\n', '\r\n') + '\r\n'
        return json.dumps(obj, indent=4, sort_keys=True)


def write(path, text):
    with open(path, 'wb') as f:
        f.write(text.encode())


# ---- registry

def read_registry(path):
    if not os.path.exists(path):
        return []
    with open(path, 'rb') as f:
        d = json.loads(f.read().decode('utf-8'))
    return [(b['name'], b['directory']) for b in d.get('boxes', [])]


def write_registry(path, boxes, style):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    write(path, style.dumps({'boxes': [{'name': n, 'directory': d} for n, d in boxes]}))


# ---- workspaces

def read_ws(ws):
    '''(kind, inputs)'''
    with open(os.path.join(ws, '.bead-meta', 'bead'), 'rb') as f:
        d = json.loads(f.read().decode('utf-8'))
    return d['kind'], beadfile.normal_inputs(d['inputs'])


def write_meta(ws, kind, inputs, style):
    write(os.path.join(ws, '.bead-meta', 'bead'), style.dumps({
        'kind': kind,
        'inputs': {nick: dict(kind=k, content_id=c, freeze_time=t) for nick, (k, c, t) in inputs.items()}}))


def make_ws(ws, kind, inputs, style):
    for d in ('input', 'output', 'temp', '.bead-meta'):
        os.makedirs(os.path.join(ws, d))
    write_meta(ws, kind, inputs, style)
    os.chmod(os.path.join(ws, 'input'), 0o555)


def load_input(ws, nick, data):
    top = os.path.join(ws, 'input')
    os.chmod(top, 0o755)
    d = os.path.join(top, nick)
    os.mkdir(d)
    gen.write_tree(d, data)
    for p, ds, fs in os.walk(d, topdown=False):
        for f in fs:
            os.chmod(os.path.join(p, f), 0o444)
        os.chmod(p, 0o555)
    os.chmod(top, 0o555)


def unload_input(ws, nick):
    from .runner import force_rmtree
    top = os.path.join(ws, 'input')
    os.chmod(top, 0o755)
    force_rmtree(os.path.join(top, nick))
    os.chmod(top, 0o555)


# ---- index

def index_path(box):
    return os.path.join(box, '.index.sqlite')


def text(v):
    try:
        v.encode()
        return v
    except UnicodeEncodeError:
        return v.encode('utf-8', 'surrogatepass')


def index_put(box, bf):
    with contextlib.closing(sqlite3.connect(index_path(box))) as c:
        c.execute('INSERT OR REPLACE INTO beads (name, content_id, kind, freeze_time_str, freeze_time_unix, file_path) VALUES (?, ?, ?, ?, ?, ?)',
                  [*map(text, (bf.name, bf.content_id, bf.kind, bf.freeze_time_str)), bf.instant, text(os.path.basename(bf.path))])
        c.execute('DELETE FROM inputs WHERE bead_name = ? AND bead_content_id = ?', (text(bf.name), bf.content_id))
        for nick, (k, cid, ts) in beadfile.normal_inputs(bf.inputs).items():
            c.execute('INSERT INTO inputs (bead_name, bead_content_id, input_name, input_kind, input_content_id, input_freeze_time_str) VALUES (?, ?, ?, ?, ?, ?)',
                      tuple(map(text, (bf.name, bf.content_id, nick, k, cid, ts))))
        c.commit()


def index_create(box, beads):
    with contextlib.closing(sqlite3.connect(index_path(box))) as c:
        for s in SCHEMA:
            c.execute(s)
        c.commit()
    for bf in beads:
        index_put(box, bf)


def index_remove(box, bf):
    name = text(os.path.basename(bf.path))
    with contextlib.closing(sqlite3.connect(index_path(box))) as c:
        c.execute('DELETE FROM inputs WHERE (bead_name, bead_content_id) IN (SELECT name, content_id FROM beads WHERE file_path = ?)', (name,))
        c.execute('DELETE FROM beads WHERE file_path = ?', (name,))
        c.commit()


def index_rows(box):
    '''[(name, content id, kind, freeze time, microseconds, file, inputs)]'''
    def s(v):
        return v.decode('utf-8', 'surrogatepass') if isinstance(v, bytes) else v
    with contextlib.closing(sqlite3.connect(f'file:{index_path_uri(box)}?mode=ro', uri=True)) as c:
        out = []
        for row in c.execute('SELECT name, content_id, kind, freeze_time_str, freeze_time_unix, file_path FROM beads ORDER BY freeze_time_unix').fetchall():
            ins = c.execute('SELECT input_name, input_kind, input_content_id, input_freeze_time_str FROM inputs WHERE bead_name = ? AND bead_content_id = ?', row[:2]).fetchall()
            out.append((*map(s, row), sorted(tuple(map(s, i)) for i in ins)))
        return out


def index_path_uri(box):
    from urllib.parse import quote
    return quote(os.fsencode(index_path(box)))


def row_of(bf):
    return (bf.name, bf.content_id, bf.kind, bf.freeze_time_str, bf.instant, os.path.basename(bf.path),
            sorted((n, *v) for n, v in beadfile.normal_inputs(bf.inputs).items()))


# ---- archives

def save(ws, box, name, ts, rng, style):
    '''archive of a workspace; returns its BeadFile'''
    from .world import ws_trees
    kind, inputs = read_ws(ws)
    code, data = ws_trees(ws)
    path = os.path.join(box, f'{name}_{ts}.zip')
    meta = style.dumps({
        'meta_version': beadfile.META_VERSION, 'kind': kind, 'freeze_time': ts, 'freeze_name': name,
        'inputs': {nick: dict(kind=k, content_id=c, freeze_time=t) for nick, (k, c, t) in inputs.items()}})
    beadfile.write_bead(path, kind, ts, name=name, code=code, data=data, meta_raw=meta.encode(), compression=rng.choice(gen.COMPRESSIONS),
                        order=rng.shuffle if style.name != 'classic' else None)
    return beadfile.BeadFile(path)


def damage_of_zip(path):
    '''what programs not knowing about beads say about an archive'''
    with zipfile.ZipFile(path) as z:
        return z.testzip()


# ---- webs

def web_entry(name, cid, kind, ts, inputs, freshness='SUPERSEDED', box=''):
    return {
        '@encoding': 'attrs', '@class': 'Dummy', 'name': name, 'content_id': cid, 'kind': kind, 'freeze_time_str': ts, 'box_name': box,
        'freshness': {'@encoding': 'enum', '@class': 'Freshness', 'value': freshness},
        'inputs': [{'@encoding': 'attrs', '@class': 'InputSpec', 'name': n, 'kind': k, 'content_id': c, 'freeze_time_str': t} for n, (k, c, t) in inputs.items()]}


def write_web(path, entries, style):
    write(path, style.dumps(entries, extra=False))


def read_web(path):
    '''[(name, content id, kind, freeze time, inputs, freshness, box)]'''
    with open(path, 'rb') as f:
        entries = json.loads(f.read().decode('utf-8'))
    out = []
    for e in entries:
        fr = e['freshness']
        assert (e['@encoding'], e['@class'], fr['@encoding'], fr['@class']) == ('attrs', 'Dummy', 'enum', 'Freshness')
        ins = {}
        for i in e['inputs']:
            assert (i['@encoding'], i['@class']) == ('attrs', 'InputSpec')
            ins[i['name']] = (i['kind'], i['content_id'], i['freeze_time_str'])
        out.append((e['name'], e['content_id'], e['kind'], e['freeze_time_str'], ins, fr['value'], e['box_name']))
    return out

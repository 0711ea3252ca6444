import json
import os
import shutil
import warnings
import zipfile

from harness import beadfile, gen, snap
from harness.cli import User
from harness.world import put_bead, random_inputs, ws_inputs, ws_meta, ws_trees

warnings.filterwarnings('ignore', category=UserWarning, module='zipfile')

PROPERTY = 'C04'
LEVEL = 'fault_enumeration'
RULE = ('one case = one saved bead and a batch of modifications of its archive file (byte flips, truncations, insertions, structural '
        'rewrites), each offered to the tool by file, by name and by content id, with and without an index; non-trivial = distinct '
        'modified files; each is judged by an independent reader')
REQUIRED = {'modified_files': 3000, 'refused': 5000, 'accepted_unchanged': 20, 'accepted_new_id': 20, '#mod': 1500}
ASSUMPTIONS = ['SHA-512 collisions do not occur']


def plan(tier, rng):
    n = 80 if tier == 'quick' else 4000
    cases = [dict(flips=[10, 25][i % 2], mode=i % 4) for i in range(n)]
    # big files, many files
    return cases + [dict(flips=0, mode=4 + i % 2) for i in range(24 if tier == 'quick' else 400)]


def rewrite(src, dst, fn, compression):
    '''structural rewrite: fn edits an ordered list of (name, bytes)'''
    with zipfile.ZipFile(src) as z:
        members = [(n, z.read(n)) for n in z.namelist()]
    members = fn(members) or members
    with zipfile.ZipFile(dst, 'w') as z:
        for n, b in members:
            z.writestr(beadfile.raw_info(n, compression), b)


def edit_json(member, fn):
    def f(members):
        out = []
        for n, b in members:
            if n == member:
                o = json.loads(b)
                r = fn(o)
                b = beadfile.dumps(o if r is None else r)
            out.append((n, b))
        return out
    return f


def remanifest(members):
    '''make the archive self consistent again'''
    d = {n: b for n, b in members if n != 'meta/manifest'}
    return list(d.items()) + [('meta/manifest', beadfile.dumps({n: beadfile.nshash(b) for n, b in d.items()}))]


def structural(rng, bf):
    '''[(label, edit function)]'''
    files = [n for n in bf.members if n.startswith(('code/', 'data/'))]
    data = [n for n in files if n.startswith('data/')]
    code = [n for n in files if n.startswith('code/')]
    out = []

    def change(n, new):
        return lambda ms: [(m, new if m == n else b) for m, b in ms]

    def without(n):
        return lambda ms: [(m, b) for m, b in ms if m != n]
    for n in (rng.sample(data, min(2, len(data))) + rng.sample(code, min(2, len(code)))):
        b = bf.members[n]
        out.append(('change', change(n, b + b'!')))
        out.append(('change same size', change(n, bytes([b[0] ^ 1]) + b[1:] if b else b'x')))
        out.append(('truncate', change(n, b[:-1] if b else b'y')))
        out.append(('remove', without(n)))
        out.append(('rename', lambda ms, n=n: [(m + '.renamed' if m == n else m, x) for m, x in ms]))
        out.append(('move to other area', lambda ms, n=n: [
            ((('code/' if m.startswith('data/') else 'data/') + m[5:]) if m == n else m, x) for m, x in ms]))
        out.append(('duplicate last', lambda ms, n=n: ms + [(n, b'evil')]))
        out.append(('duplicate first', lambda ms, n=n: [(n, b'evil')] + ms))
        out.append(('consistent change', lambda ms, n=n: remanifest([(m, x + b'?' if m == n else x) for m, x in ms])))
        out.append(('not in manifest', edit_json('meta/manifest', lambda o, n=n: o.pop(n) and None)))
        out.append(('wrong hash in manifest', edit_json('meta/manifest', lambda o, n=n: o.__setitem__(n, beadfile.nshash(b'other')))))
        out.append(('empty hash in manifest', edit_json('meta/manifest', lambda o, n=n: o.__setitem__(n, rng.choice(['', None, 0, o[n].upper(), o[n][:-1]])))))
    out.append(('extra data', lambda ms: ms + [('data/extra', b'extra')]))
    out.append(('extra empty data', lambda ms: ms + [('data/extra', b'')]))
    out.append(('extra code', lambda ms: ms + [('code/extra', b'extra')]))
    out.append(('extra nested', lambda ms: ms + [('data/d/e/f', b'')]))
    out.append(('extra first', lambda ms: [('data/extra', b'extra')] + ms))
    out.append(('extra dir entry', lambda ms: ms + [('data/dir/', b'')]))
    out.append(('extra elsewhere', lambda ms: ms + [('other/extra', b'x'), ('README', b'')]))
    out.append(('consistent extra', lambda ms: remanifest(ms + [('data/extra', b'extra')])))
    for part in (data, code):
        if len(part) > 1:
            a, b = rng.sample(part, 2)
            out.append(('swap', lambda ms, a=a, b=b: [({a: b, b: a}.get(m, m), x) for m, x in ms]))
    if data and code:
        a, b = rng.choice(data), rng.choice(code)
        out.append(('swap areas', lambda ms, a=a, b=b: [({a: b, b: a}.get(m, m), x) for m, x in ms]))
    for field, value in (('kind', 'another'), ('freeze_time', '20110101T000000000000+0000'), ('freeze_name', 'x'), ('inputs', {}), ('meta_version', 'other'), ('freeze_time', 'garbage'), ('freeze_time', None),
                         ('freeze_time', '29990101T000000000000+0000'), ('inputs', {'i': {'kind': 'k', 'content_id': 'c', 'freeze_time': '20110101T000000000000+0000'}})):
        out.append((f'meta {field}', edit_json('meta/bead', lambda o, f=field, v=value: o.__setitem__(f, v))))
        out.append((f'consistent meta {field}', lambda ms, f=field, v=value: remanifest(edit_json('meta/bead', lambda o: o.__setitem__(f, v))(ms))))
    for field in ('kind', 'freeze_time', 'inputs', 'freeze_name', 'meta_version'):
        out.append((f'consistent, no {field}', lambda ms, f=field: remanifest(edit_json('meta/bead', lambda o: o.pop(f) and None)(ms))))
    out.append(('no manifest', without('meta/manifest')))
    out.append(('no meta', without('meta/bead')))
    out.append(('manifest not json', change('meta/manifest', b'{')))
    out.append(('manifest list', change('meta/manifest', b'[]')))
    out.append(('manifest empty', change('meta/manifest', b'{}')))
    out.append(('manifest binary', change('meta/manifest', b'\xff\xfe\x00')))
    out.append(('manifest respelled', edit_json('meta/manifest', lambda o: None)))
    out.append(('manifest extra name', edit_json('meta/manifest', lambda o: o.__setitem__('data/ghost', beadfile.nshash(b'')))))
    out.append(('meta not hashed', edit_json('meta/manifest', lambda o: o.pop('meta/bead') and None)))
    out.append(('all data gone', lambda ms: [(m, x) for m, x in ms if not m.startswith('data/')]))
    out.append(('shuffled', lambda ms: rng.sample(ms, len(ms))))
    out.append(('identical', lambda ms: ms))
    return out


def judge_accepted(w, label, path, bf, code, data, kind, inputs, what):
    '''the tool used the content: was it right to?'''
    try:
        with zipfile.ZipFile(path) as z:
            manifest_bytes = z.read('meta/manifest')
        cid = beadfile.nshash(manifest_bytes)
        manifest = json.loads(manifest_bytes)
    except Exception:
        cid, manifest = None, {}
    got = {}
    if code is not None:
        got.update({'code/' + n: b for n, b in code.items()})
    got.update({'data/' + n: b for n, b in data.items()})
    if cid is None or cid == bf.content_id:
        w.count('accepted_unchanged')
        want = {n: b for n, b in bf.members.items() if n.startswith('data/') or (code is not None and n.startswith('code/'))}
        d = snap.diff_files(want, got)
        w.check(not d, 'modified bead accepted under the same content id with different content', modification=label, used_by=what, diff=d)
        if code is not None:
            w.check(kind == bf.kind and inputs == beadfile.normal_inputs(bf.inputs),
                    'modified metadata accepted under the same content id', modification=label, kind=kind, inputs=inputs)
    else:
        w.count('accepted_new_id')
        bad = [n for n, b in got.items() if manifest.get(n) != beadfile.nshash(b)]
        w.check(not bad, 'content not matching the manifest was accepted', modification=label, used_by=what, bad=bad[:5])
        missing = [n for n in manifest if n not in got and (n.startswith('data/') or (code is not None and n.startswith('code/')))]
        w.check(not missing, 'missing content was accepted', modification=label, used_by=what, missing=missing[:5])


class Target:
    def __init__(self, w, u, bf, box, mode):
        self.w, self.u, self.bf, self.box, self.mode = w, u, bf, box, mode
        self.work = u.mkdir('work')
        # a workspace which has the bead as an input, loaded and not loaded
        self.ws = os.path.join(self.work, 'user ws')
        u.must('new', self.ws)
        u.must('input', 'add', 'unloaded', bf.name, cwd=self.ws)
        w.check(snap.tree_files(os.path.join(self.ws, 'input', 'unloaded')) == bf.data if os.path.isdir(os.path.join(self.ws, 'input', 'unloaded')) else False,
                'an intact bead is refused', _stop=True)
        u.must('input', 'unload', 'unloaded', cwd=self.ws)
        other = put_bead(box, w.rng, 'otherbead', kind='other-kind', instant=bf.instant - 5_000_000)
        u.must('input', 'add', 'good', other.path, cwd=self.ws)
        if mode % 2:
            u.must('box', 'index')
        self.original = open(bf.path, 'rb').read()

    def offer(self, label, data):
        w, u, bf = self.w, self.u, self.bf
        if data == self.original:
            return
        w.count('modified_files')
        w.seen('mod', beadfile.nshash(data))
        with open(bf.path, 'wb') as f:
            f.write(data)
        commands = ['edit file', 'edit name', 'add file', 'add name', 'load', 'update file']
        picks = commands if label.startswith('!') else w.rng.sample(commands, 2)
        box_before = snap.snapshot(self.box)
        for what in picks:
            self.offer_one(label, what)
        w.check(snap.snapshot(self.box) == box_before, 'using a modified bead changed the box', modification=label)

    def offer_one(self, label, what):
        w, u, bf = self.w, self.u, self.bf
        before = snap.snapshot(self.work)
        outside = self.u.root
        if what.startswith('edit'):
            target = os.path.join(self.work, 'edited')
            r = u.bead('edit', '--review', bf.path if what == 'edit file' else bf.name, target, cwd=self.work)
            if self.crashed(r, label, what):
                return
            if r.ok:
                code, data = ws_trees(target)
                judge_accepted(w, label, bf.path, bf, code, data, ws_meta(target).get('kind'), ws_inputs(target), what)
                u.must('discard', target, cwd=self.work)
            else:
                w.count('refused')
                w.check(not os.path.lexists(target), 'a refused bead left a workspace behind', modification=label)
        else:
            nick = {'load': 'unloaded', 'update file': 'good'}.get(what, 'fresh')
            args = {'load': ['load', nick], 'update file': ['update', nick, bf.path],
                    'add file': ['add', nick, bf.path], 'add name': ['add', nick, bf.name]}[what]
            r = u.bead('input', *args, cwd=self.ws)
            if self.crashed(r, label, what):
                return
            meta = ws_inputs(self.ws)
            if snap.snapshot(self.work) != before:
                d = os.path.join(self.ws, 'input', nick)
                w.check(os.path.isdir(d) and nick in meta, 'refused bead changed the workspace', modification=label, used_by=what, result=repr(r))
                judge_accepted(w, label, bf.path, bf, None, snap.tree_files(d), None, None, what)
            else:
                w.count('refused')
                w.check(bool(r.err.strip()), 'refusal without a message', modification=label, result=repr(r))
        # restore
        self.reset(before)

    def reset(self, before):
        if snap.snapshot(self.work) != before:
            u, w = self.u, self.w
            if os.path.lexists(os.path.join(self.work, 'edited')):
                from harness.runner import force_rmtree
                force_rmtree(os.path.join(self.work, 'edited'))
            modified = open(self.bf.path, 'rb').read()
            with open(self.bf.path, 'wb') as f:
                f.write(self.original)
            meta = ws_inputs(self.ws)
            if 'fresh' in meta:
                u.must('input', 'delete', 'fresh', cwd=self.ws)
            other = [n for n in os.listdir(self.box) if n.startswith('otherbead')][0]
            u.must('input', 'update', 'good', os.path.join(self.box, other), cwd=self.ws)
            u.bead('input', 'delete', 'unloaded', cwd=self.ws)
            u.must('input', 'add', 'unloaded', self.bf.path, cwd=self.ws)
            u.must('input', 'unload', 'unloaded', cwd=self.ws)
            with open(self.bf.path, 'wb') as f:
                f.write(modified)

    def crashed(self, r, label, what):
        if r.crash is not None:
            self.w.violate('a damaged bead crashes the tool', modification=label, used_by=what, crash=repr(r.crash), tb=(r.tb or '')[-2000:])
            return True
        return False


def run_case(case, w):
    rng = w.rng
    u = User(w)
    box = u.add_box('box')
    code = gen.gen_tree(rng, n=rng.choice([1, 2, 4]), top_reserved=gen.TOP_RESERVED)
    data = gen.gen_tree(rng, n=rng.choice([1, 2, 4]))
    if case['mode'] == 4:
        size = rng.choice([s for s in gen.SIZES if s > 60000] + [rng.randrange(1, 4) * (1 << 20) + rng.randrange(-70000, 70000), (1 << 22) + 3])
        rng.choice([code, data])['big'] = gen.payload(rng, size)
    elif case['mode'] == 5:
        rng.choice([code, data]).update({f'm{i}/{i % 9}': b'%d' % (i % 50) for i in range(rng.choice([30, 150, 400]))})
    name = rng.choice(['bead', 'ünï bead'])
    if rng.random() < .5:
        bf = put_bead(box, rng, name, code=code, data=data, inputs=random_inputs(rng), kind='the-kind')
    else:
        # saved by the tool
        ws = u.path(name)
        u.must('new', ws)
        gen.write_tree(ws, code)
        gen.write_tree(os.path.join(ws, 'output'), data)
        u.must('save', '-w', ws, env=dict(BEAD_ZIP_COMPRESSION=rng.choice(['off', 'deflated'])))
        bf = beadfile.BeadFile(os.path.join(box, [n for n in os.listdir(box) if n.endswith('.zip')][0]))
    t = Target(w, u, bf, box, case['mode'])
    orig = t.original
    n = len(orig)
    tmp = u.path('rewritten')
    if case['i'] < 2:
        w.sample(dict(archive_bytes=n, members=list(bf.members)[:10]))
    if case['mode'] >= 4:
        names = [n for n in bf.members if n.endswith('/big')] if case['mode'] == 4 else [n for n in bf.members if n.startswith(('code/m', 'data/m'))]
        for k in range(8):
            victim = names[0] if k == 0 else names[-1] if k == 1 else rng.choice(names)
            b = bf.members[victim]
            block = rng.choice([1 << 10, 1 << 16, 1 << 20])
            at = rng.choice([0, len(b) - 1, len(b) // 2, rng.randrange(len(b)), min(len(b) - 1, len(b) // block * block), max(0, len(b) // block * block - 1)])
            new = {
                0: lambda: b[:at] + bytes([b[at] ^ 1]) + b[at + 1:], 1: lambda: b[:at] + bytes([b[at] ^ 1]) + b[at + 1:],
                2: lambda: b[:-1], 3: lambda: b + b'\0', 4: lambda: b[:at], 5: lambda: b + b[:1 << 20],
                6: lambda: b[:at] + bytes([b[at] ^ 128]) + b[at + 1:], 7: lambda: b[at:] + b[:at]}[k if case['mode'] == 4 else rng.randrange(8)]()
            if new == b:
                continue
            with open(bf.path, 'wb') as f:
                f.write(orig)
            rewrite(bf.path, tmp, lambda ms: [(m, new if m == victim else x) for m, x in ms], rng.choice(gen.COMPRESSIONS))
            t.offer(f'change {len(b)} bytes at {at}', open(tmp, 'rb').read())
    elif case['mode'] < 2:
        for pos in rng.sample(range(n), min(n, case['flips'])):
            x = bytearray(orig)
            x[pos] ^= rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])
            t.offer(f'flip {pos}/{n}', bytes(x))
        # the directory of the archive is where a single byte matters most
        for pos in rng.sample(range(max(0, n - 600), n), min(n, case['flips'])):
            x = bytearray(orig)
            x[pos] ^= rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])
            t.offer(f'flip {pos}/{n}', bytes(x))
        for cut in [0, 1, n - 1] + [rng.randrange(n) for _ in range(4)]:
            t.offer(f'truncate {cut}/{n}', orig[:cut])
        at = rng.randrange(n)
        t.offer('insert', orig[:at] + rng.randbytes(3) + orig[at:])
        t.offer('remove bytes', orig[:at] + orig[at + 2:])
        t.offer('zeroed block', orig[:at] + bytes(min(64, n - at)) + orig[at + 64:])
        t.offer('appended', orig + b'garbage')
        t.offer('prepended', b'#!/bin/sh\n' + orig)
    else:
        for label, fn in structural(rng, bf):
            with open(bf.path, 'wb') as f:
                f.write(orig)
            rewrite(bf.path, tmp, fn, rng.choice(gen.COMPRESSIONS))
            t.offer(('!' if rng.random() < .25 else '') + label, open(tmp, 'rb').read())

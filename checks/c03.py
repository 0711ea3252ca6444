import io
import json
import os
import shutil
import subprocess
import sys

import bead.zipopener
from bead.box import Box
from bead.tech import securehash
from bead.tech.fs import Path
from bead.workspace import Workspace
from bead.ziparchive import ZipArchive

from harness import beadfile, gen, runner, snap
from harness.cli import User, invoke
from harness.world import random_inputs

PROPERTY = 'C03'
LEVEL = 'exploration'
RULE = ('one case = one generated content packed in several environments (place, order, times, permissions, compression, links, '
        'process, locale, hash seed), copied and renamed, plus a set of single-fact mutations; non-trivial = distinct content ids seen')
REQUIRED = {'same_pairs': 150, 'different_pairs': 300, 'subprocess_packs': 10, 'streams': 200, 'foreign_layouts': 100, '#id': 300}

PACK = '''
import sys, json
sys.path.insert(0, sys.argv[1])
from bead.workspace import Workspace
Workspace(sys.argv[2]).pack(sys.argv[3], freeze_time=sys.argv[4], comment=sys.argv[5])
from bead.ziparchive import ZipArchive
print(ZipArchive(sys.argv[3]).content_id)
'''


def plan(tier, rng):
    n = 130 if tier == 'quick' else 6000
    return [dict(feature=i if i < 2 * len(gen.FEATURES) else None, sub=i % 8 == 0) for i in range(n)]


def canonical_id(c):
    '''the id calculated from the recorded facts alone'''
    members = {'code/' + n: b for n, b in c['code'].items()}
    members.update({'data/' + n: b for n, b in c['data'].items()})
    meta = dict(
        meta_version=beadfile.META_VERSION, kind=c['kind'], freeze_time=c['time'], freeze_name=c['name'],
        inputs={n: dict(kind=k, content_id=i, freeze_time=t) for n, (k, i, t) in c['inputs'].items()})
    members['meta/bead'] = beadfile.dumps(meta)
    return beadfile.nshash(beadfile.dumps({n: beadfile.nshash(b) for n, b in members.items()}))


class Packer:
    def __init__(self, w):
        self.w = w
        self.n = 0

    def place(self, c, decorate=False):
        self.n += 1
        parent = os.path.join(self.w.dir, f'p{self.n}' + self.w.rng.choice(['', ' x', '_ü']), 'q' * self.w.rng.choice([1, 50]))
        os.makedirs(parent)
        d = os.path.join(parent, c['name'])
        ws = Workspace(d)
        ws.create(c['kind'])
        items = list(c['inputs'].items())
        self.w.rng.shuffle(items)
        for nick, (k, i, t) in items:
            ws.add_input(nick, k, i, t)
        store = os.path.join(parent, 'linked') if decorate else None
        gen.write_tree(d, c['code'], self.w.rng, decorate=decorate, store=store)
        gen.write_tree(os.path.join(d, 'output'), c['data'], self.w.rng, decorate=decorate, store=store)
        if decorate:
            gen.write_tree(os.path.join(d, 'temp'), {'t': b'temp'})
            os.makedirs(os.path.join(d, 'an empty directory'), exist_ok=True)
        return d

    def pack(self, d, c, comment='c', env=None, sub=None):
        z = os.path.join(os.path.dirname(d), f'{c["name"]}_{c["time"]}.zip')
        if sub is not None:
            e = {k: v for k, v in os.environ.items() if k not in ('PYTHONHASHSEED', 'LC_ALL', 'LD_PRELOAD')}
            e.update(sub)
            r = subprocess.run([sys.executable, '-c', PACK, runner.REPO, d, z, c['time'], comment], env=e, capture_output=True, text=True)
            self.w.check(r.returncode == 0, 'packing failed in another process', _stop=True, env=sub, err=r.stderr[-1500:])
            self.w.count('subprocess_packs')
            return z, r.stdout.strip()
        old = os.environ.get('BEAD_ZIP_COMPRESSION')
        try:
            if env:
                os.environ['BEAD_ZIP_COMPRESSION'] = env
            Workspace(d).pack(Path(z), freeze_time=c['time'], comment=comment)
        finally:
            os.environ.pop('BEAD_ZIP_COMPRESSION', None)
            if old:
                os.environ['BEAD_ZIP_COMPRESSION'] = old
        cid = ZipArchive(z).content_id
        bead.zipopener.close_all()
        return z, cid


def copy_content(c):
    return dict(c, code=dict(c['code']), data=dict(c['data']), inputs=dict(c['inputs']))


def mutations(c, rng):
    '''(description, content) differing from c in one recorded fact'''
    def m(label):
        x = copy_content(c)
        out.append((label, x))
        return x
    out = []
    m('kind')['kind'] += 'x'
    m('name')['name'] = c['name'] + 'x'
    t = beadfile.instant(c['time'])
    m('time+1us')['time'] = beadfile.ts_from_instant(t + 1)
    m('add empty source')['code']['zz-added'] = b''
    m('add empty output')['data']['zz-added'] = b''
    m('empty source vs output')['data']['zz-added2'] = b''
    m('add input')['inputs']['zz'] = ('k', 'f' * 128, c['time'])
    for part in ('code', 'data'):
        names = sorted(c[part])
        if names:
            n = rng.choice(names)
            b = c[part][n]
            if b:
                i = rng.randrange(len(b))
                m(f'byte {part}')[part][n] = b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]
                m(f'shorter {part}')[part][n] = b[:-1]
                for at in (0, len(b) - 1, 1 << 20):
                    if 0 <= at < len(b):
                        m(f'byte {part} at {at}')[part][n] = b[:at] + bytes([b[at] ^ 0x80]) + b[at + 1:]
            m(f'longer {part}')[part][n] = b + b'\0'
            m(f'newline {part}')[part][n] = b + b'\n'
            x = m(f'remove {part}')
            del x[part][n]
            x = m(f'rename {part}')
            if gen.add(x[part], n + '.r', b):
                del x[part][n]
            else:
                out.pop()
            other = 'data' if part == 'code' else 'code'
            x = m(f'move from {part}')
            if n.split('/')[0] not in gen.TOP_RESERVED and gen.add(x[other], n, b):
                del x[part][n]
            else:
                out.pop()
        pairs = [(a, b) for a in names for b in names if a < b and c[part][a] != c[part][b]]
        if pairs:
            a, b = rng.choice(pairs)
            x = m(f'swap {part}')
            x[part][a], x[part][b] = x[part][b], x[part][a]
            both = c[part][a] + c[part][b]
            cut = rng.randrange(len(both) + 1)
            if (both[:cut], both[cut:]) != (c[part][a], c[part][b]):
                x = m(f'boundary {part}')
                x[part][a], x[part][b] = both[:cut], both[cut:]
    if c['inputs']:
        nick = rng.choice(sorted(c['inputs']))
        k, i, t = c['inputs'][nick]
        m('input kind')['inputs'][nick] = (k + 'x', i, t)
        m('input id')['inputs'][nick] = (k, ('0' if i[0] != '0' else '1') + i[1:], t)
        m('input time')['inputs'][nick] = (k, i, beadfile.ts_from_instant(beadfile.instant(t) + 1))
        x = m('input nick')
        x['inputs'][nick + '2'] = x['inputs'].pop(nick)
        del m('input removed')['inputs'][nick]
    return out


class Dribble(io.RawIOBase):
    '''a file object with short reads'''

    def __init__(self, data, rng):
        self.b, self.rng = io.BytesIO(data), rng

    def readable(self):
        return True

    def read(self, n=-1):
        if n is None or n < 0:
            return self.b.read()
        return self.b.read(self.rng.randint(1, max(1, n)))


LAYOUTS = [dict(), dict(indent=4), dict(indent=1, sort_keys=True), dict(separators=(',', ':')), dict(ensure_ascii=False), dict(indent=4, sort_keys=True, ensure_ascii=False), dict(indent=4, sort_keys=True)]


def run_case(case, w):
    rng = w.rng
    c = dict(
        code=gen.gen_tree(rng, top_reserved=gen.TOP_RESERVED, big=True, feature=case['feature']),
        data=gen.gen_tree(rng, big=True), inputs=random_inputs(rng),
        name=rng.choice([n for n in gen.BEAD_NAMES]), kind=rng.choice(gen.KINDS),
        time=beadfile.ts_from_instant(gen.gen_instant(rng), rng.choice(gen.OFFSETS)))
    p = Packer(w)
    d = p.place(c)
    z, base = p.pack(d, c)
    want = canonical_id(c)
    w.check(base == want, 'content id is not the documented hash of the content', got=base, want=want)
    w.check(beadfile.BeadFile(z).content_id == base, 'content id is not the hash of the manifest')
    w.seen('id', base)
    w.sample(dict(name=c['name'], kind=c['kind'], time=c['time'], id=base, code=sorted(c['code'])[:6], data=sorted(c['data'])[:6]), 1)
    # --- same content, other environments
    same = []
    d2 = p.place(c, decorate=True)
    z2, i2 = p.pack(d2, c, comment='another ünï comment', env=rng.choice(['off', 'stored', 'deflated', 'nonsense']))
    same.append(('other place, order, times, permissions, compression', i2))
    os.unlink(z)
    z, i3 = p.pack(d, c, env='stored')
    same.append(('packed again', i3))
    if case['sub']:
        for env in ({'PYTHONHASHSEED': str(rng.randrange(1000)), 'LC_ALL': 'C'}, {'PYTHONHASHSEED': 'random', 'TZ': 'Asia/Kathmandu', 'PYTHONUTF8': '1'}):
            os.unlink(z2)
            z2, i4 = p.pack(d2, c, sub=env)
            same.append((f'process {env}', i4))
    # archive copied and renamed
    boxdir = os.path.join(w.dir, 'somebox')
    os.mkdir(boxdir)
    copy = os.path.join(boxdir, rng.choice(['renamed.zip', 'other_20200101.zip', f'copy_{c["time"]}.zip', os.path.basename(z)]))
    shutil.copy(z, copy)
    same.append(('renamed copy', ZipArchive(copy).content_id))
    bead.zipopener.close_all()
    beads = Box('b', Path(boxdir)).all_beads()
    w.check(len(beads) == 1, 'copied archive is not listed', n=len(beads))
    same += [('listed by scanning', b.content_id) for b in beads]
    bead.zipopener.close_all()
    r = invoke(['box', 'index', '--dir', boxdir], w.dir, w.dir)
    beads = Box('b', Path(boxdir)).all_beads()
    same += [('listed by index', b.content_id) for b in beads]
    bead.zipopener.close_all()
    for how, i in same:
        w.count('same_pairs')
        w.check(i == base, 'same content got a different content id', how=how, got=i, want=base)
    # --- single mutations
    ids = {base: 'base'}
    for label, x in mutations(c, rng):
        cid = canonical_id(x)
        if cid in ids:
            continue    # the mutation is a no-op or equals another one
        zx, ix = p.pack(p.place(x), x)
        w.count('different_pairs')
        w.check(ix not in ids, 'different content got the same content id', mutation=label, same_as=ids.get(ix))
        w.check(ix == cid, 'content id is not the documented hash of the content', mutation=label)
        ids[ix] = label
        w.seen('id', ix)
    # --- archives of other programs, their json documents are laid out in other ways
    for k, layout in enumerate(rng.sample(LAYOUTS, 3)):
        there = os.path.join(w.dir, f'foreign{k}')
        os.mkdir(there)
        members = {}

        def other_layout(manifest):
            items = list(manifest.items())
            rng.shuffle(items)
            members['manifest'] = json.dumps(dict(items), **layout).encode('utf-8')
            return members['manifest']
        f = os.path.join(there, f'foreign_{c["time"]}.zip')
        fid = beadfile.write_bead(f, c['kind'], c['time'], inputs=c['inputs'], code=c['code'], data=c['data'], manifest_override=other_layout)
        w.count('foreign_layouts')
        w.check(fid == beadfile.nshash(members['manifest']), 'harness')
        got = [ZipArchive(f).content_id] + [b.content_id for b in Box('b', Path(there)).all_beads()]
        bead.zipopener.close_all()
        w.check(got == [fid, fid], 'content id is not the hash of the manifest', layout=layout, got=got, want=fid)
    # --- hashing does not depend on how data is delivered
    for size in rng.sample(gen.SIZES + [3 << 20, 7, 1000], 3):
        b = gen.payload(rng, size)
        w.count('streams')
        h = beadfile.nshash(b)
        w.check(securehash.bytes(b) == h, 'hash of bytes is wrong', size=size)
        w.check(securehash.file(io.BytesIO(b), len(b)) == h, 'hash of a file is wrong', size=size)
        w.check(securehash.file(Dribble(b, rng), len(b)) == h, 'hash depends on read sizes', size=size)

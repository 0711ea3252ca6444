import io
import json
import os
import re
import shutil
import zipfile

from harness import beadfile, faults, gen, snap
from harness.cli import User
from harness.query import NAME_FAMILIES
from harness.runner import force_rmtree
from harness.world import put_bead

PROPERTY = 'C11'
NEEDS_SHIM = True       # controlled clock
LEVEL = 'exploration'
RULE = ('one case = a world of boxes, beads and a workspace, in which the same random sequence of commands is run twice under a controlled clock: '
        'without and with foreign and broken files in the boxes (some put there between the commands); everything the commands said and left behind must be equal; '
        'non-trivial = distinct (command, kinds of junk, outcome) triples')
REQUIRED = {'commands': 2500, 'junk': 2000, 'twins_compared': 90, 'ok_commands': 1000, '#compared': 700}

TS = '20200101T000000000000+0000'


def plan(tier, rng):
    n = 100 if tier == 'quick' else 2500
    return [dict(boxes=[1, 2][i % 2], indexed=[0, 1, 2][i % 3], junk=[6, 15, 40][i % 3 if i % 7 else 2], steps=14) for i in range(n)]


def zip_of(members, comment=b''):
    f = io.BytesIO()
    with zipfile.ZipFile(f, 'w') as z:
        z.comment = comment
        for n, b in members:
            z.writestr(beadfile.raw_info(n, zipfile.ZIP_DEFLATED), b)
    return f.getvalue()


def meta(fn=None, **kw):
    m = dict(meta_version=beadfile.META_VERSION, kind=kw.pop('kind', 'kind-a'), freeze_time=TS, freeze_name='x', inputs={})
    m.update(kw)
    if fn:
        fn(m)
    return m


def bead_zip(m, manifest=None, data=(('data/x', b'x'),)):
    ms = list(data) + [('meta/bead', m if isinstance(m, bytes) else json.dumps(m).encode())]
    if manifest is None:
        manifest = beadfile.dumps({n: beadfile.nshash(b) for n, b in ms})
    if manifest is not False:
        ms.append(('meta/manifest', manifest))
    return zip_of(ms)


def drop(k):
    return lambda m: m.pop(k)


INPUT = dict(kind='k', content_id='c', freeze_time=TS)
BROKEN = {
    'empty': lambda rng, good: b'',
    'one byte': lambda rng, good: b'P',
    'random': lambda rng, good: rng.randbytes(rng.choice([10, 1000, 70000])),
    'text': lambda rng, good: b'just notes\n',
    'truncated': lambda rng, good: good[:rng.randrange(1, len(good) - 30)],
    'only directory': lambda rng, good: good[good.index(b'PK\x01\x02'):],
    'zip end only': lambda rng, good: b'PK\x05\x06' + bytes(18),
    'zip end bad': lambda rng, good: b'PK\x05\x06' + b'\xff' * 18,
    'empty zip': lambda rng, good: zip_of([]),
    'other zip': lambda rng, good: zip_of([('README', b'x'), ('src/x.py', b'')]),
    'no meta': lambda rng, good: zip_of([('data/x', b'x'), ('meta/manifest', b'{}')]),
    'no manifest': lambda rng, good: bead_zip(meta(), False),
    'meta not json': lambda rng, good: bead_zip(b'{'),
    'meta binary': lambda rng, good: bead_zip(b'\xff\xfe\x00\x01'),
    'meta empty': lambda rng, good: bead_zip(b''),
    'meta list': lambda rng, good: bead_zip([]),
    'meta null': lambda rng, good: bead_zip(b'null'),
    'meta string': lambda rng, good: bead_zip(b'"kind"'),
    'meta number': lambda rng, good: bead_zip(b'1'),
    'meta deep': lambda rng, good: bead_zip(b'[' * 100000),
    'no kind': lambda rng, good: bead_zip(meta(drop('kind'))),
    'no freeze time': lambda rng, good: bead_zip(meta(drop('freeze_time'))),
    'no freeze name': lambda rng, good: bead_zip(meta(drop('freeze_name'))),
    'no inputs': lambda rng, good: bead_zip(meta(drop('inputs'))),
    'no version': lambda rng, good: bead_zip(meta(drop('meta_version'))),
    'other version': lambda rng, good: bead_zip(meta(meta_version='other')),
    'bad freeze time': lambda rng, good: bead_zip(meta(freeze_time=rng.choice(['', 'now', '2020', '20201301T000000000000+0000', '20200230T000000000000+0000', '20200101T000000000000', TS + '0', TS[:-5] + '+9900', TS[:-5] + '+2400', '00000101T000000000000+0000', TS + '\n' if False else TS + ' ']))),
    'time not string': lambda rng, good: bead_zip(meta(freeze_time=rng.choice([None, 5, [], {}, 1.5, True]))),
    'kind not string': lambda rng, good: bead_zip(meta(kind=rng.choice([None, 5, [], {}, True]))),
    'inputs list': lambda rng, good: bead_zip(meta(inputs=rng.choice([['a'], 'abc', 5, None, True]))),
    'input name': lambda rng, good: bead_zip(meta(inputs={rng.choice(['', '.', '..', 'a/b', '/', '../x', 'a__b', '__']): INPUT})),
    'input record': lambda rng, good: bead_zip(meta(inputs={'a': rng.choice([None, [], 'x', 5, {}, dict(kind='k'), dict(INPUT, freeze_time='x'), dict(INPUT, freeze_time=None), dict(INPUT, kind=None), dict(INPUT, content_id=5)])})),
    'encrypted flag': lambda rng, good: good.replace(b'PK\x03\x04\x14\x00\x00', b'PK\x03\x04\x14\x00\x01').replace(b'PK\x01\x02\x14\x03\x14\x00\x00', b'PK\x01\x02\x14\x03\x14\x00\x01'),
    'bad method': lambda rng, good: re.sub(rb'(PK\x01\x02.{6})..', lambda m: m[1] + b'\x63\x00', good, flags=re.S),
}


def junk(world, rng, w):
    '''put one foreign thing in a box; returns its kind'''
    d = rng.choice(list(world.boxes.values()))
    name = rng.choice(world.names)
    fn = rng.choice([
        f'{name}_{rng.randrange(1990, 2030)}0101T00000000000{rng.randrange(10)}+0000.zip', f'{name}_20200101.zip', f'{name}{rng.randrange(100)}.zip', f'junk{rng.randrange(100)}.zip', f'a__b{rng.randrange(100)}.zip',
        '.zip', '_20200101.zip', '..zip', '...zip', f'.hidden{rng.randrange(100)}.zip', '__.zip', f'{name}__x_20200101.zip', b'undecodable\xff.zip', f'new\nline{rng.randrange(9)}.zip', f'*{rng.randrange(9)}.zip'])
    p = os.path.join(os.fsencode(d), os.fsencode(fn))
    if os.path.lexists(p):
        return
    kind = rng.choice(list(BROKEN) * 3 + SPECIAL)
    if kind in BROKEN:
        good = rng.choice(world.good)
        data = BROKEN[kind](rng, good)
        if data == good:
            return
        with open(p, 'wb') as f:
            f.write(data)
    elif kind == 'directory':
        os.mkdir(p)
        if rng.random() < .5:
            with open(os.path.join(p, b'x.zip'), 'wb') as f:
                f.write(rng.choice(world.good))
    elif kind == 'dangling':
        os.symlink(rng.choice(['nowhere', '/nonexistent/x.zip', '']) or 'x', p)
    elif kind == 'loop':
        os.symlink(os.path.basename(p), p)
    elif kind == 'link to directory':
        os.symlink(rng.choice(['.', '..', '/']), p)
    elif kind == 'link to nothing':
        os.symlink('/dev/null', p)
    elif kind == 'unreadable':
        if not w.unprivileged:
            return
        with open(p, 'wb') as f:
            f.write(b'secret')
        os.chmod(p, 0)
    elif kind == 'unreadable directory':
        if not w.unprivileged:
            return
        os.mkdir(p)
        os.chmod(p, 0)
    elif kind == 'other file':
        p = os.path.join(os.fsencode(d), os.fsencode(rng.choice(['README', 'x.txt', f'{name}_20200101.zip.part', '.DS_Store', f'{name}_20200101.ZIP', 'a.zip~', '.index', 'index.sqlite', '.index.sqlite.bak', '.index.sqlite-x'])))
        if os.path.lexists(p):
            return
        with open(p, 'wb') as f:
            f.write(rng.choice([b'x', rng.choice(world.good)]))
    elif kind == 'nested':
        p = os.path.join(os.fsencode(d), os.fsencode(f'sub{rng.randrange(20)}'))
        if os.path.lexists(p):
            return
        os.mkdir(p)
        with open(os.path.join(p, os.fsencode(f'{name}_20290101T000000000000+0000.zip')), 'wb') as f:
            f.write(rng.choice(world.good))
    elif kind == 'bad name':
        # good content under a name that can not be the name of a bead
        p = os.path.join(os.fsencode(d), os.fsencode(rng.choice(['a__b.zip', '.zip', '_20200101.zip', '..zip', '__.zip', '...zip', '_20200101T00+0000.zip'])))
        if os.path.lexists(p) or beadfile.name_from_file(os.fsdecode(p)) not in ('', '.', '..') and b'__' not in p:
            return
        with open(p, 'wb') as f:
            f.write(rng.choice(world.good))
    world.junk.add(os.fsdecode(p))
    w.count('junk')
    w.count('junk ' + kind)
    return kind


SPECIAL = ['directory', 'dangling', 'loop', 'link to directory', 'link to nothing', 'unreadable', 'unreadable directory', 'other file', 'nested', 'bad name'] * 4


class World:
    def __init__(self, case, w):
        self.w, rng = w, w.rng
        self.root = os.path.join(w.dir, 'world')
        self.master = os.path.join(w.dir, 'master')
        u = self.u = User(w, 'world')
        self.names = [n for n in rng.choice(NAME_FAMILIES) if n.strip('.') and '\\' not in n and ':' not in n]
        self.kinds = rng.sample(gen.KINDS, 2)
        self.boxes = {f'box{i}': u.add_box(f'box{i}') for i in range(case['boxes'])}
        self.beads = []
        t = gen.gen_instant(rng)
        for _ in range(rng.choice([2, 5, 9])):
            t += 1 + rng.randrange(10 ** rng.choice([1, 6, 9, 12]))
            ins = {}
            if self.beads and rng.random() < .6:
                for b in rng.sample(self.beads, min(len(self.beads), rng.choice([1, 1, 2]))):
                    ins[b.name] = (b.kind, b.content_id, b.freeze_time_str)
            self.beads.append(put_bead(rng.choice(list(self.boxes.values())), rng, rng.choice(self.names), instant=t, kind=rng.choice(self.kinds), inputs=ins, data={'d': rng.randbytes(8)}))
        self.good = [open(b.path, 'rb').read() for b in self.beads]
        self.now = t + 10 ** 12
        self.ws = u.path('work', 'ws')
        u.mkdir('work')
        u.must('new', self.ws)
        gen.write_tree(self.ws, {'src': b's', 'output/o': b'o'})
        for b in rng.sample(self.beads, min(2, len(self.beads))):
            u.must('input', 'add', 'in' + str(self.beads.index(b)), b.path, cwd=self.ws)
        if case['indexed']:
            for n in list(self.boxes)[:case['indexed']]:
                u.must('box', 'index', '--box', n)
        os.makedirs(u.path('out'))
        self.junk = set()
        faults.clone(self.root, self.master)

    def reset(self):
        force_rmtree(self.root)
        faults.clone(self.master, self.root)
        self.junk = set()

    def script(self, rng, steps):
        '''random commands, decided in advance'''
        out = []
        nicks = ['in' + str(i) for i in range(len(self.beads))]
        for i in range(steps):
            b = rng.choice(self.beads)
            box = rng.choice(list(self.boxes))
            t = beadfile.ts_from_instant(b.instant + rng.choice([0, 0, -1, 1]))
            argv = rng.choice([
                lambda: ['status'], lambda: ['status', '-v'], lambda: ['status', '-v'], lambda: ['box', 'list'],
                lambda: ['edit', '--', b.name, f'../edit{i}'], lambda: ['edit', '--review', '-t', t, '--', b.name, f'../edit{i}'],
                lambda: ['edit', '--', b.path, f'../edit{i}'],
                lambda: ['input', 'add', '--', rng.choice(nicks), b.name], lambda: ['input', 'add', '-t', t, '--', rng.choice(nicks), b.name],
                lambda: ['input', 'add', '--', b.name],
                lambda: ['input', 'unload'], lambda: ['input', 'load'], lambda: ['input', 'load', rng.choice(nicks)], lambda: ['input', 'update'],
                lambda: ['input', 'update', rng.choice(nicks)], lambda: ['input', 'update', '--prev', rng.choice(nicks)], lambda: ['input', 'update', '--next', rng.choice(nicks)],
                lambda: ['input', 'update', '-t', t, rng.choice(nicks)], lambda: ['input', 'delete', rng.choice(nicks)],
                lambda: ['save', box], lambda: ['save', box], lambda: ['save', box],
                lambda: ['box', 'index', '--box', box], lambda: ['box', 'index', '--all'], lambda: ['box', 'reindex', '--box', box], lambda: ['box', 'reindex', '--all'],
                lambda: ['web', 'save', f'../../out/{i}.web', 'color', 'dot', f'../../out/{i}.dot'],
                lambda: ['web', 'color', 'heads', 'save', f'../../out/{i}.web'],
                lambda: ['web', '/', '..', b.name, '/', 'save', f'../../out/{i}.web', 'dot', f'../../out/{i}.dot'],
            ])()
            out.append((argv, rng.choice([0, 0, 1, 3])))
        out += [(['status', '-v'], 0), (['web', 'save', '../../out/last.web', 'color', 'dot', '../../out/last.dot'], 0)]
        return out

    def play(self, script, junked, rng, amount):
        results = []
        kinds = []
        if junked:
            kinds += [junk(self, rng, self.w) for _ in range(amount)]
        for i, (argv, more) in enumerate(script):
            if junked:
                kinds += [junk(self, rng, self.w) for _ in range(more)]
            out = faults.command(self.u, argv, cwd=self.ws, clock=self.now + i * 1_000_000)
            r = out.result
            results.append((r.code, r.crash, r.tb, said(argv, r.out), r.err))
        return results, sorted({k for k in kinds if k})

    def state(self):
        '''what was left behind'''
        s = snap.snapshot(self.root)
        for j in self.junk:
            rel = os.path.relpath(j, self.root)
            for k in [k for k in s if k == rel or k.startswith(rel + '/')]:
                del s[k]
        for k in [k for k in s if os.path.basename(k).startswith('.index.sqlite')]:
            s[k] = 'index'
        for k in list(s):
            if k.startswith('out/') and isinstance(s[k], tuple) and s[k][0] == 'file':
                s[k] = drawn(os.path.join(self.root, k))
        return s


def said(argv, text):
    # progress is reported in the order of files found
    return '' if argv[0] == 'web' else text


def drawn(path):
    '''order independent content of what web commands wrote'''
    with open(path, encoding='utf-8') as f:
        text = f.read()
    if path.endswith('.web'):
        return sorted(json.dumps(b, sort_keys=True) for b in json.loads(text))
    return sorted(re.sub(r'unique_\d+', 'unique', text).replace('\n\n', '\n').split('\n'))


def run_case(case, w):
    rng = w.rng
    world = World(case, w)
    script = world.script(rng, case['steps'])
    world.reset()
    plain, _ = world.play(script, False, rng, 0)
    plain_state = world.state()
    crashed = [(script[i][0], r) for i, r in enumerate(plain) if r[1]]
    w.check(not crashed, 'a command fails without any foreign file', crashed=crashed[:1])
    world.reset()
    got, kinds = world.play(script, True, rng, case['junk'])
    for (argv, _), a, b in zip(script, plain, got):
        if a[0] in (0, None):
            w.count('ok_commands')
        w.seen('compared', [argv[:2], kinds, a[0], b[0]])
        if not w.check(a == b, 'a command gives another result because of foreign files', argv=argv, without=a, having=b, junk=kinds):
            break
    else:
        d = snap.diff(plain_state, world.state())
        w.check(not d, 'commands leave behind something else because of foreign files', diff=d, junk=kinds, script=[a for a, _ in script])
    w.count('twins_compared')
    w.sample(dict(junk=kinds[:12], script=[a for a, _ in script][:6], outcomes=[r[0] for r in plain][:6]))

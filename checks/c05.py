import json
import os
import stat
import zipfile
import warnings

from harness import audit, beadfile, gen, snap
from harness.cli import User
from harness.world import is_valid_ws, put_bead

warnings.filterwarnings('ignore', category=UserWarning, module='zipfile')

PROPERTY = 'C05'
LEVEL = 'exploration'
RULE = ('one case = one hostile archive or one hostile input name (from the command line or from metadata) offered to all commands; '
        'every file system modification is recorded online and compared with the places the command may touch, and a canary tree is '
        'compared before and after; non-trivial = distinct (hostile thing, command)')
REQUIRED = {'hostile_archives': 150, 'hostile_names': 60, 'modifications_seen': 3000, 'canary_files_compared': 3000, '#hostile': 300}
ASSUMPTIONS = ['modifications are observed through interpreter audit events and by comparing trees']


def plan(tier, rng):
    n = 900 if tier == 'quick' else 9000
    return [dict(mode=['archive', 'archive', 'archive', 'nick', 'meta'][i % 5], k=i // 5) for i in range(n)]


DEEP = ('a', 'b', 'c', 'd', 'e')


class Scene:
    def __init__(self, w):
        self.w = w
        self.u = u = User(w)
        rng = w.rng
        self.box = u.add_box('box')
        self.base = u.mkdir(*DEEP)
        self.ws = os.path.join(self.base, 'ws')
        # things worth damaging
        self.victims = [u.mkdir(*DEEP[:k], 'victim') for k in range(len(DEEP) + 1)]
        for v in self.victims:
            gen.write_tree(v, {'precious': b'precious', 'sub/precious2': b'p2', 'x': b'x'})
            os.chmod(os.path.join(v, 'sub', 'precious2'), 0o444)
        self.good = put_bead(self.box, rng, 'good', data={'d': b'1', 'sub/e': b'2'})
        u.must('new', self.ws)
        gen.write_tree(self.ws, {'src': b'source', 'sub/src2': b's2', 'victim/precious': b'v', 'output/o': b'out', 'temp/t': b'tmp', 'output/victim/y': b'y'})
        u.must('input', 'add', 'good', self.good.path, cwd=self.ws)
        u.must('input', 'add', 'other', self.good.path, cwd=self.ws)
        u.must('input', 'unload', 'other', cwd=self.ws)
        self.fence = w.dir

    def run(self, label, argv, cwd, allowed):
        '''run and judge by what was modified'''
        w, u = self.w, self.u
        root = u.root
        before = snap.snapshot(root)
        with audit.watch(self.fence) as log:
            r = u.bead(*argv, cwd=cwd)
        w.count('modifications_seen', len(log))
        w.count('ok' if r.ok else 'crashed' if r.crash is not None else 'refused')
        if r.crash is not None:
            w.seen('crash', [str(r.crash)[:60], argv[:2]])
            w.note(f'crash {argv[:2]} {label} {r.crash!r}'[:250])
        index = os.path.join(self.box, '.index.sqlite')
        allowed = list(allowed) + [u.config, index, index + '-journal']
        bad = audit.outside(log, allowed)
        # creating parents of the destination is fine
        bad = [(e, p) for e, p in bad if not (e == 'os.mkdir' and any(os.path.realpath(a).startswith(p + '/') for a in allowed))]
        after = snap.snapshot(root)
        w.count('canary_files_compared', len(before))
        changed = []
        for k in set(before) | set(after):
            if before.get(k) != after.get(k):
                p = os.path.normpath(os.path.join(root, k))
                if not any(p == a or p.startswith(a + '/') for a in allowed):
                    changed.append((k, before.get(k), after.get(k)))
        w.check(not bad and not changed, 'a command touched something outside of its destination',
                hostile=label, argv=r.argv, touched=bad[:6], changed=changed[:6], result=repr(r))
        w.seen('hostile', [label, argv[0], argv[1] if argv[0] == 'input' else ''])
        return r


def hostile_members(rng, s):
    '''names that try to escape'''
    victim = rng.choice(s.victims)
    up = rng.randrange(1, 5)
    area = rng.choice(['code', 'data'])
    target = rng.choice(['victim/precious', 'victim/new', 'newfile', 'ws/src', 'ws/.bead-meta/bead', 'ws/sub/new', 'victim/sub/precious2'])
    names = [
        f'{area}/' + '../' * up + target,
        f'{area}/' + 'x/../' * up + '../' * up + target,
        f'{area}/sub/' + '../' * (up + 1) + target,
        f'{area}/./' + '../' * up + target,
        f'{area}//' + '../' * up + target,
        f'{area}/{victim}/precious',                 # area//abs
        f'{area}//{victim}/new',
        f'{area}///{victim}/precious',
        f'{area}/x/..//{victim}/new',
        f'{area}/..',
        f'{area}/.',
        f'{area}/',
        f'{area}/../',
        f'{area}/...',
        f'{area}/.. /x', f'{area}/ ../x', f'{area}/..\\..\\x', f'{area}/..\x00/x',
        f'{area}/x/' + '../' * up + 'input/evil',
        '../' * up + target,
        victim + '/precious',
        f'meta/' + '../' * up + target,
        f'{area}/..%2f..%2fx',
        f'{area}/../{area}/../../victim/precious',
        f'{area}/a/../b',
        f'{area}/../data/x', f'{area}/../code/x',
    ]
    return rng.sample(names, rng.choice([1, 1, 2, 3]))


HOSTILE_NICKS = ['..', '.', '', '../x', '../../victim', 'a/../../victim', './x', 'x/', '/', '//', 'x/y', '../good', 'good/../../src', '../output/victim',
                 '../temp', '../sub', '../.bead-meta', '../../ws', '../input/good', 'a__b', '__', '..\\x', '...', '.. ', ' ..', '\n', '~', '~/x', '$HOME', '-', '*', '../*', 'good/sub',
                 '../../../victim', '../victim', '../output', '../../b/victim', 'x' * 300]


def nick(rng, s):
    if rng.random() < .2:
        return rng.choice(s.victims)
    return rng.choice(HOSTILE_NICKS)


def make_archive(w, s, path):
    '''consistent archive with hostile content; returns a label'''
    rng = w.rng
    members = {'code/c': b'c', 'data/d': b'd'}
    extra = []
    label = []
    meta_nicks = {}
    kind = rng.randrange(6)
    if kind <= 2:
        for n in hostile_members(rng, s):
            label.append(n)
            if rng.random() < .8:
                members[n] = b'EVIL'
            else:
                extra.append((n, b'EVIL'))
    elif kind == 3:
        # a link member and something below it
        victim = rng.choice(s.victims)
        target = rng.choice([victim, '../../victim', '..', '../../ws'])
        area = rng.choice(['code', 'data'])
        info = beadfile.raw_info(f'{area}/link', zipfile.ZIP_STORED)
        info.external_attr = (stat.S_IFLNK | 0o777) << 16
        info.create_system = 3
        members[f'{area}/link'] = (info, target.encode())
        if rng.random() < .7:
            members[f'{area}/link/precious'] = b'EVIL'
        label.append(['link', target])
    elif kind == 4:
        for _ in range(rng.choice([1, 2])):
            n = nick(rng, s)
            meta_nicks[n] = dict(kind='k', content_id=s.good.content_id, freeze_time=s.good.freeze_time_str)
            label.append(['nick', n])
    else:
        area = rng.choice(['code', 'data'])
        for n in rng.sample(['code/input/evil', 'code/input/good/d', 'code/.bead-meta/bead', 'code/.bead-meta/x', 'code/output/x', 'code/temp/x', 'code/input', 'code/output', 'code/.bead-meta', 'code/temp',
                             f'{area}/d', f'{area}/d/x', f'{area}/dir/', 'meta/evil', 'evil', 'code', 'data'], 2):
            label.append(n)
            members[n] = b'EVIL'
    meta = dict(meta_version=beadfile.META_VERSION, kind=rng.choice(['k', '../k', '/k']), freeze_time='20200101T000000000000+0000',
                freeze_name=rng.choice(['n', '../../victim', s.victims[0], '..']), inputs=meta_nicks)
    flat = {n: (b[1] if isinstance(b, tuple) else b) for n, b in members.items()}
    flat['meta/bead'] = beadfile.dumps(meta)
    manifest = {n: beadfile.nshash(b) for n, b in flat.items()}
    manifest_bytes = beadfile.dumps(manifest)
    with zipfile.ZipFile(path, 'w') as z:
        for n, b in flat.items():
            info = members[n][0] if isinstance(members.get(n), tuple) else beadfile.raw_info(n, zipfile.ZIP_DEFLATED)
            z.writestr(info, b)
        for n, b in extra:
            z.writestr(beadfile.raw_info(n, zipfile.ZIP_DEFLATED), b)
        z.writestr('meta/manifest', manifest_bytes)
    return label


def input_area(s):
    return [os.path.join(s.ws, 'input'), os.path.join(s.ws, '.bead-meta')]


def case_archive(case, w, s):
    rng, u = w.rng, s.u
    filename = rng.choice(['evil_20200101T000000000000+0000.zip', 'evil_20200101T000000000000+0000.zip', 'evil.zip', '.._20200101.zip', '.zip', '_20200101.zip', '..zip', 'a\\..\\b.zip', '...zip', '. .zip'])
    path = os.path.join(s.box, filename)
    label = make_archive(w, s, path)
    w.count('hostile_archives')
    w.sample(dict(members=label, file=filename), limit=1)
    cid = None
    try:
        with zipfile.ZipFile(path) as z:
            cid = beadfile.nshash(z.read('meta/manifest'))
    except Exception:
        pass
    # the workspace already refers to it
    if cid and rng.random() < .5:
        meta_path = os.path.join(s.ws, '.bead-meta', 'bead')
        m = json.load(open(meta_path))
        m['inputs']['evil'] = dict(kind='k', content_id=cid, freeze_time='20200101T000000000000+0000')
        json.dump(m, open(meta_path, 'w'))
        s.run(label, ['input', 'load', 'evil'], s.ws, input_area(s))
    if rng.random() < .3:
        u.bead('box', 'index')
    ref = rng.choice([path, path, beadfile.name_from_file(path) or 'evil'])
    for op in rng.sample(['edit', 'edit', 'add', 'update', 'load', 'derive'], 4):
        if op == 'edit':
            target = os.path.join(s.base, f'opened{rng.randrange(10**6)}')
            r = s.run(label, ['edit'] + rng.choice([[], ['--review']]) + [ref, target], s.base, [target])
            if r.ok:
                w.count('opened')
                w.check(is_valid_ws(target), 'opened workspace is not valid', hostile=label)
                areas = {d: sorted(os.listdir(os.path.join(target, d))) for d in ('input', 'temp', '.bead-meta', 'output')}
                w.check(areas['input'] == [] and areas['temp'] == [] and areas['.bead-meta'] == ['bead'] and (areas['output'] == [] or '--review' in r.argv),
                        'sources are extracted into the areas of the workspace', hostile=label, areas=areas)
                s.run(label, ['input', 'load'], target, [os.path.join(target, 'input'), os.path.join(target, '.bead-meta')])
                s.run(label, ['status'], target, [])
                s.run(label, ['save', 'box', '-w', target], s.base, [s.box])
                s.run(label, ['discard', target], s.base, [target])
        elif op == 'derive':
            # the workspace's name comes from the bead's name
            cwd = os.path.join(s.base, 'cwd')
            os.makedirs(cwd, exist_ok=True)
            bead_name = beadfile.name_from_file(path)
            allowed = [os.path.join(cwd, bead_name)] if bead_name not in ('', '.', '..') and '/' not in bead_name else []
            s.run(label, ['edit', path], cwd, allowed)
        elif op == 'add':
            s.run(label, ['input', 'add', 'new', ref], s.ws, input_area(s))
        elif op == 'update':
            s.run(label, ['input', 'update', 'good', ref], s.ws, input_area(s))
        elif op == 'load':
            s.run(label, ['input', 'update'], s.ws, input_area(s))
            s.run(label, ['input', 'load'], s.ws, input_area(s))
    for op in (['status', '-v'], ['input', 'unload'], ['web', 'dot', os.path.join(s.base, 'web.dot')]):
        s.run(label, op, s.ws, input_area(s) if op[0] == 'input' else [os.path.join(s.base, 'web.dot')])


def case_nick(case, w, s):
    '''hostile names on the command line'''
    rng = w.rng
    n = HOSTILE_NICKS[case['k'] % len(HOSTILE_NICKS)] if case['k'] < 2 * len(HOSTILE_NICKS) else nick(rng, s)
    w.count('hostile_names')
    ops = [['add', n, s.good.path], ['add', n, 'good'], ['load', n], ['unload', n], ['delete', n], ['rm', n], ['update', n], ['update', n, s.good.path], ['update', n, '-P'], ['add', n]]
    rng.shuffle(ops)
    for op in ops[:7]:
        s.run(['nick', n], ['input'] + op, s.ws, input_area(s))
    # a name is a directory to be used: nothing but that may be touched by accepted ones
    s.run(['nick', n], ['input', 'load'], s.ws, input_area(s))
    s.run(['nick', n], ['status'], s.ws, [])


def case_meta(case, w, s):
    '''hostile names in the metadata of a workspace got from somebody'''
    rng = w.rng
    n = nick(rng, s)
    w.count('hostile_names')
    meta_path = os.path.join(s.ws, '.bead-meta', 'bead')
    m = json.load(open(meta_path))
    m['inputs'][n] = dict(kind=s.good.kind, content_id=s.good.content_id, freeze_time=s.good.freeze_time_str)
    json.dump(m, open(meta_path, 'w'))
    ops = [['load'], ['load', n], ['unload'], ['unload', n], ['delete', n], ['update'], ['update', n], ['update', n, s.good.path], ['add', n, s.good.path]]
    rng.shuffle(ops)
    for op in ops:
        s.run(['meta nick', n], ['input'] + op, s.ws, input_area(s))
        if rng.random() < .3:
            with open(meta_path, 'w') as f:
                json.dump(m, f)
    s.run(['meta nick', n], ['status', '-v'], s.ws, [])
    s.run(['meta nick', n], ['save', 'box'], s.ws, [s.box])
    opened = os.path.join(s.base, 'opened')
    s.run(['meta nick', n], ['edit', 'ws', opened], s.base, [opened])
    if os.path.isdir(opened):
        s.run(['meta nick', n], ['input', 'load'], opened, [os.path.join(opened, 'input'), os.path.join(opened, '.bead-meta')])


def run_case(case, w):
    s = Scene(w)
    dict(archive=case_archive, nick=case_nick, meta=case_meta)[case['mode']](case, w, s)

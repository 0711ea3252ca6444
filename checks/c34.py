'''
Damaged bookkeeping: the registry of boxes and the metadata of workspaces.
What is damaged is decided here, with a reader of its own.
'''
import json
import os
import shutil

from harness import audit, beadfile, gen, snap
from harness.cli import User, zips
from harness.runner import force_rmtree
from harness.world import is_valid_ws, put_bead, ws_inputs, ws_trees

PROPERTY = 'C34'
LEVEL = 'exploration'
RULE = ('one case = one user with boxes, workspaces and inputs; again and again the registry or the metadata of a workspace is damaged in one of many ways (cut, overwritten, merged, '
        'retyped, bits flipped, unreadable, replaced by links), unless it is still usable according to an independent reader; random commands run: those needing it have to be refused, '
        'naming the file, without any effect (everything is compared); others have to work; then the file is restored and has to mean the same as before; '
        'non-trivial = distinct (file, way of damage, command, outcome) tuples')
REQUIRED = {'damaged_registry': 200, 'damaged_meta': 500, 'refused_commands': 3000, 'independent_commands': 500, 'restored': 800, 'discarded': 60, 'still_usable': 15, 'unwritable': 20,
            '#way': 40, '#op': 30}


def plan(tier, rng):
    n = 96 if tier == 'quick' else 1500
    return [dict(steps=12 if tier == 'quick' else 24, what=('registry', 'meta', 'meta')[i % 3]) for i in range(n)]


# ---- what is usable

def is_name(n):
    return isinstance(n, str) and n not in ('', '.', '..') and '/' not in n and '__' not in n


BAD_TIMES = ['', 'x', '2020-01-01', '20201301T000000000000+0000', '20200101T000000000000', 'today', '9' * 30, '20200101T000000000000+9900']


def usable_meta(raw):
    '''True, False, or None if it is not specified'''
    try:
        m = json.loads(raw.decode('utf-8'))
    except (ValueError, RecursionError):
        return False
    try:
        ok = isinstance(m['kind'], str) and isinstance(m['inputs'], dict)
        times = []
        for n, s in m['inputs'].items():
            ok = ok and is_name(n) and all(isinstance(s[k], str) for k in ('kind', 'content_id', 'freeze_time'))
            times.append(s['freeze_time'])
        if not ok:
            return False
        if any(t in BAD_TIMES or sum(c.isdigit() for c in t) < 8 for t in times):
            return False
        # (how much times might differ from the usual is not specified)
        return True if all(map(is_time, times)) else None
    except Exception:
        return False


def is_time(t):
    try:
        beadfile.instant(t)
        return True
    except Exception:
        return False


def usable_registry(raw):
    try:
        m = json.loads(raw.decode('utf-8'))
    except (ValueError, RecursionError):
        return False
    try:
        if 'boxes' not in m and isinstance(m, dict):
            return None
        return isinstance(m, dict) and isinstance(m['boxes'], list) and all(isinstance(b[k], str) for b in m['boxes'] for k in ('name', 'directory'))
    except Exception:
        return False


# ---- ways to damage

def spots(x, path=()):
    '''all places in a JSON value'''
    yield path
    if isinstance(x, dict):
        for k in x:
            yield from spots(x[k], path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from spots(v, path + (i,))


def replace(x, path, f):
    if not path:
        return f(x)
    x[path[0]] = replace(x[path[0]], path[1:], f)
    return x


WRONG = [None, 0, 1.5, True, '', 'x', [], {}, ['x'], {'x': 'y'}, [None], {'name': 1}, -1, 'é', '../../x', [[]]]


def damaged_bytes(rng, raw):
    '''(way, bytes)'''
    way = rng.choice(['empty', 'cut', 'cut', 'zeros', 'noise', 'conflict', 'twice', 'utf-16', 'bom', 'latin-1', 'flip', 'flip', 'flips', 'overwritten', 'deep', 'space', 'comment', 'trailing comma', 'python',
                      'type', 'type', 'type', 'type', 'key removed', 'key removed', 'key renamed', 'item removed', 'bad name', 'bad time', 'list'])
    text = raw.decode('utf-8')
    if way == 'empty':
        return way, b''
    if way == 'cut':
        return way, raw[:rng.randrange(1, len(raw.rstrip(b'} \n]')))]
    if way == 'zeros':
        i = rng.randrange(len(raw))
        return way, raw[:i] + bytes(len(raw) - i)
    if way == 'noise':
        return way, rng.randbytes(rng.choice([1, 10, len(raw)]))
    if way == 'conflict':
        lines = text.splitlines(True)
        i = rng.randrange(len(lines))
        return way, ''.join(lines[:i] + ['<<<<<<< HEAD\n', lines[i], '=======\n', lines[i], '>>>>>>> other\n'] + lines[i + 1:]).encode()
    if way == 'twice':
        return way, raw + raw
    if way == 'utf-16':
        return way, text.encode('utf-16')
    if way == 'bom':
        return way, b'\xef\xbb\xbf' + raw
    if way == 'latin-1':
        i = rng.randrange(len(raw))
        return way, raw[:i] + b'\xe9' + raw[i:]
    if way in ('flip', 'flips'):
        b = bytearray(raw)
        for _ in range(1 if way == 'flip' else 5):
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        return way, bytes(b)
    if way == 'overwritten':
        b = bytearray(raw)
        i = rng.randrange(len(b))
        b[i:i + 8] = b'\xff' * 8
        return way, bytes(b)
    if way == 'deep':
        return way, b'[' * 200000 + b']' * 200000
    if way == 'space':
        return way, b' \n' * rng.randrange(1, 9)
    if way == 'comment':
        return way, b'# edited\n' + raw
    if way == 'trailing comma':
        i = text.rindex('}')
        return way, (text[:i] + ',' + text[i:]).encode()
    if way == 'python':
        return way, repr(json.loads(text)).encode()
    x = json.loads(text)
    places = [p for p in spots(x)]
    if way == 'type':
        p = rng.choice(places)
        x = replace(x, p, lambda old: rng.choice([v for v in WRONG if type(v) is not type(old)]))
    elif way in ('key removed', 'key renamed'):
        p = rng.choice([p for p in places if p and isinstance(p[-1], str)])
        def change(old):
            v = old.pop(p[-1])
            if way == 'key renamed':
                old[rng.choice([p[-1].upper(), p[-1] + ' ', 'x'])] = v
            return old
        x = replace(x, p[:-1], change)
    elif way == 'item removed':
        x = {}
    elif way == 'list':
        x = rng.choice([[x], [], list(x.items())])
    elif way == 'bad name':
        bad = rng.choice(['', '.', '..', '../x', 'a/b', '/etc', 'a__b', '../../../boxes', './a', '../src', 'x/../../output'])
        if 'inputs' in x:
            x['inputs'][bad] = rng.choice(list(x['inputs'].values()))
        else:
            x['boxes'].append({'name': None, 'directory': bad})
    elif way == 'bad time':
        if x.get('inputs'):
            n = rng.choice(list(x['inputs']))
            x['inputs'][n]['freeze_time'] = rng.choice(BAD_TIMES)
        else:
            x['boxes'][0]['name'] = 5
    return way, json.dumps(x, indent=4).encode()


# ---- the world

class World:
    def __init__(self, w):
        self.w, self.rng = w, w.rng
        rng = w.rng
        self.u = u = User(w)
        self.top = u.mkdir('work')
        self.boxes = {}
        for n in rng.sample(['one', 'two words', 'ünï'], rng.choice([1, 2, 3])):
            self.boxes[n] = u.add_box(n, 'boxes', n)
        self.names = rng.sample([n for n in gen.BEAD_NAMES if n[0] not in '-.'], 3)
        self.beads = []
        for i in range(6):
            self.beads.append(put_bead(rng.choice(list(self.boxes.values())), rng, rng.choice(self.names), kind='k', instant=1_500_000_000_000_000 + i * 10 ** 9, data={'x': rng.randbytes(5), 'd/y': b'1'}))
        if rng.random() < .5:
            u.must('box', 'index', '--all')
        self.victim = u.mkdir('victim')
        gen.write_tree(self.victim, {'precious': b'1', 'd/precious': b'2'})
        self.ws = [self.workspace(n) for n in ('ws', 'other')]
        self.registry = u.registry_file
        self.n = 0

    def workspace(self, name):
        u, rng = self.u, self.rng
        ws = os.path.join(self.top, name)
        u.must('new', ws)
        gen.write_tree(ws, {'src': b's', 'lib/x': b'x', 'output/o': rng.randbytes(4), 'temp/t': b't'})
        for nick in rng.sample(['a', 'in put', 'ünï', 'b'], rng.choice([1, 2, 3])):
            u.must('input', 'add', nick, rng.choice(self.beads).path, cwd=ws)
            if rng.random() < .4:
                u.must('input', 'unload', nick, cwd=ws)
        return ws

    def all(self):
        '''everything that exists'''
        return snap.snapshot(self.u.root, mtimes=False)

    def new(self):
        self.n += 1
        return os.path.join(self.top, f'new{self.n}')

    def commands(self, ws):
        '''(needs, argv, current directory); needs: what is read by the command'''
        rng, w = self.rng, self
        name = rng.choice([b.name for b in self.beads])
        nick = rng.choice(list(self.inputs[ws]))
        t = self.new()
        box = rng.choice(list(self.boxes))
        bead = rng.choice([name, rng.choice(self.beads).path])
        R, M = 'registry', 'meta'
        cmds = [
            ((R, M), ['save', box], ws), ((R, M), ['save', box, '--workspace', ws], self.top),
            ((R, M), ['status'], ws), ((R, M), ['status', '-v', '-w', ws], self.top),
            ((M,), ['input', 'unload'], ws), ((M,), ['input', 'unload', '--', nick], ws),
            ((M,), ['input', 'delete', '--', nick], ws), ((M,), ['input', 'rm', '--', nick], os.path.join(ws, 'output')),
            ((R, M), ['input', 'load'], ws), ((R, M), ['input', 'load', '--', nick], os.path.join(ws, 'lib')),
            ((R, M), ['input', 'update'], ws), ((R, M), ['input', 'update', '--', nick], ws), ((R, M), ['input', 'update', '--', nick, bead], ws),
            ((R, M), ['input', 'update', '--prev', '--', nick], ws), ((R, M), ['input', 'update', '--next', '--', nick], ws),
            ((R, M), ['input', 'add', '--', 'fresh', bead], ws), ((R, M), ['input', 'add', '--', nick, name], ws),
            ((R,), ['edit', '--', name, t], self.top), ((R,), ['edit', '--review', '--', name, self.new()], ws),
            ((R,), ['box', 'list'], self.top), ((R,), ['box', 'add', f'fresh{self.n}', self.u.mkdir('fresh', f'{self.n}')], ws), ((R,), ['box', 'forget', box], self.top),
            ((R,), ['box', 'index', '--all'], ws), ((R,), ['box', 'index', '--box', box], ws), ((R,), ['box', 'reindex', '--box', box], self.top), ((R,), ['box', 'reindex', '--all'], self.top),
            ((R,), ['web', 'color', 'save', self.new() + '.web'], self.top), ((R,), ['web', 'heads', 'save', self.new() + '.web'], ws),
            ((), ['new', self.new()], self.top), ((), ['version'], ws),
        ]
        return cmds


def run_case(case, w):
    rng = w.rng
    world = World(w)
    u = world.u
    world.inputs = {ws: ws_inputs(ws) for ws in world.ws}
    for step in range(case['steps']):
        what = case['what']
        if what == 'registry':
            ws, path = rng.choice(world.ws), world.registry
        else:
            ws = rng.choice(world.ws)
            path = os.path.join(ws, '.bead-meta', 'bead')
        if what == 'registry' and rng.random() < .12:
            unwritable(w, world)
            continue
        with open(path, 'rb') as f:
            good = f.read()
        way, restore = damage(w, world, what, path, good)
        if way is None:
            restore()
            continue
        w.count('damaged_registry' if what == 'registry' else 'damaged_meta')
        w.seen('way', [what, way])
        todo = world.commands(ws)
        for needs, argv, cwd in rng.sample(todo, 7):
            one(w, world, what, way, path, ws, needs, argv, cwd)
        if what == 'meta':
            others(w, world, way, ws, path)
            if rng.random() < .25:
                discard(w, world, way, ws)
        restore()
        w.count('restored')
        restored(w, world)
        if rng.random() < .3:
            # another state
            other = rng.choice(world.ws)
            nick = rng.choice(list(world.inputs[other]))
            u.must('input', rng.choice(['load', 'unload', 'update']), '--', nick, cwd=other)
            world.inputs = {x: ws_inputs(x) for x in world.ws}
    w.sample(dict(what=case['what'], boxes=len(world.boxes), inputs=[len(x) for x in world.inputs.values()]))


def damage(w, world, what, path, good):
    '''(way of damage or None if it is usable, function to restore)'''
    rng = w.rng

    def back():
        force_rmtree(path)
        with open(path, 'wb') as f:
            f.write(good)
    if rng.random() < .2:
        links = ['dangling link', 'link loop', 'directory'] if what == 'registry' else []
        way = rng.choice(['unreadable', 'write only'] + links)
        if way in ('unreadable', 'write only'):
            os.chmod(path, 0 if way == 'unreadable' else 0o200)
        else:
            os.unlink(path)
            if way == 'dangling link':
                os.symlink(world.u.path('not', 'there'), path)
            elif way == 'link loop':
                os.symlink(os.path.basename(path), path)
            else:
                os.mkdir(path)
        return way, back
    way, raw = damaged_bytes(rng, good)
    usable = (usable_registry if what == 'registry' else usable_meta)(raw)
    if usable is not False:
        w.count('still_usable')
        return None, back
    with open(path, 'wb') as f:
        f.write(raw)
    return way, back


def one(w, world, what, way, path, ws, needs, argv, cwd):
    '''a command while the file is damaged'''
    info = dict(file=what, way=way, argv=argv, cwd=cwd)
    before = world.all()
    with audit.watch(fence=w.dir) as log:
        r = world.u.bead(*argv, cwd=cwd)
    after = world.all()
    d = snap.diff(before, after)
    w.check(r.crash is None, 'internal error because of a damaged file', result=repr(r), tb=(r.tb or '')[-1500:], **info)
    w.seen('op', [what, argv[:2] if argv[0] in ('input', 'box', 'web') else argv[:1]])
    w.seen('state', [what, way, argv[:2], r.code])
    if what in needs:
        w.check(r.refused, 'a damaged file is not reported', result=repr(r), **info)
        w.check(not r.ok and path in r.err, 'the message does not name the damaged file', result=repr(r), path=path, **info)
        w.check(not d, 'a command changed something although it needs a damaged file', diff=d, **info)
        w.count('refused_commands')
    elif r.ok:
        w.count('independent_commands')
        allowed = {'new': [os.path.relpath(argv[-1], world.u.root)]}.get(argv[0])
        if what == 'meta' and argv[0] in ('new', 'edit', 'web', 'box', 'version'):
            rel = os.path.relpath(path, world.u.root)
            w.check(before.get(rel) == after.get(rel), 'the damaged file is changed', **info)
        elif what == 'registry':
            rel = os.path.relpath(path, world.u.root)
            w.check(before.get(rel) == after.get(rel), 'the damaged file is changed', **info)
            w.check(argv[0] != 'new' or is_valid_ws(argv[-1]), 'no workspace is created', allowed=allowed, **info)
        if argv[:2] in (['box', 'add'], ['box', 'forget']) and r.ok:
            undo(world, argv)
    else:
        # a damaged registry may be reported by every command
        w.check(what == 'registry' and r.refused and path in r.err, 'a command fails because of a damaged file it does not need', result=repr(r), **info)
        w.check(not d, 'a refused command changed something', diff=d, **info)


def undo(world, argv):
    if argv[1] == 'add':
        world.u.must('box', 'forget', argv[2])
    else:
        world.u.must('box', 'add', argv[2], world.boxes[argv[2]])


def others(w, world, way, ws, path):
    '''other workspaces do not care'''
    rng = w.rng
    other = [x for x in world.ws if x != ws][0]
    nick = rng.choice(list(world.inputs[other]))
    damaged = snap.snapshot(ws)
    for argv in rng.sample([['status', '-w', other], ['input', 'unload', '-w', other], ['input', 'load', '-w', other, '--', nick], ['status', '-v', '-w', other]], 2):
        world.u.must(*argv, cwd=rng.choice([ws, world.top, other]))
        w.count('independent_commands')
    box, d = rng.choice(list(world.boxes.items()))
    n = len(zips(d))
    world.u.must('save', box, cwd=other)
    w.check(len(zips(d)) == n + 1, 'not saved')
    os.unlink(max((os.path.join(d, z) for z in zips(d)), key=os.path.getmtime)) if rng.random() < .5 else None
    w.check(snap.snapshot(ws) == damaged, 'a command in another workspace changed the damaged one', way=way)


def discard(w, world, way, ws):
    '''a damaged workspace can be removed'''
    copy = world.new()
    meta, meta_copy = (os.path.join(x, '.bead-meta', 'bead') for x in (ws, copy))
    mode = os.stat(meta).st_mode
    os.chmod(meta, 0o600)
    shutil.copytree(ws, copy, symlinks=True)
    for p in (meta, meta_copy):
        os.chmod(p, mode)
    keep = {k: v for k, v in world.all().items() if not (world.u.path(k) + '/').startswith(copy + '/')}
    world.u.must('discard', *w.rng.choice([[], ['--force'], [copy], ['-f', copy]]), cwd=copy)
    w.check(not os.path.exists(copy), 'discarded workspace exists', way=way)
    w.check(world.all() == keep, 'discard changed something else', way=way, diff=snap.diff(keep, world.all()))
    w.count('discarded')


def restored(w, world):
    '''everything is as before'''
    u = world.u
    out = u.must('box', 'list').out
    for n, d in world.boxes.items():
        w.check(f'{n}: {d}' in out, 'a box is lost', box=n, out=out)
    for ws in world.ws:
        w.check(ws_inputs(ws) == world.inputs[ws], 'inputs are lost', ws=ws)
        out = u.must('status', cwd=ws).out
        for n in world.inputs[ws]:
            w.check(f'input/{n}\n' in out, 'an input is lost', nick=n, out=out)


def unwritable(w, world):
    '''a registry that can not be saved'''
    rng, u = w.rng, world.u
    d = os.path.dirname(world.registry)
    mode = os.stat(d).st_mode
    fresh = u.mkdir('fresh', f'u{world.n}')
    world.n += 1
    os.chmod(d, 0o555)
    try:
        argv = rng.choice([['box', 'add', 'fresh', fresh], ['box', 'forget', rng.choice(list(world.boxes))]])
        before = world.all()
        r = u.bead(*argv)
        w.check(r.crash is None, 'internal error because of an unwritable registry', result=repr(r), tb=(r.tb or '')[-1500:])
        w.check(r.refused and world.registry in r.err, 'a registry that could not be saved is not reported', result=repr(r))
        w.check(world.all() == before, 'something is changed')
        w.count('unwritable')
        for argv in (['box', 'list'], ['status', '-w', world.ws[0]]):
            u.must(*argv)
    finally:
        os.chmod(d, mode)

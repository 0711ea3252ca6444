import os
import random
import resource
import shutil
import sys

import bead.zipopener
from bead.exceptions import InvalidArchive
from bead.tech.fs import Path
from bead.workspace import Workspace
from bead.ziparchive import ZipArchive

from harness import beadfile, faults, gen, snap
from harness.cli import User, invoke
from harness.world import is_valid_ws, put_bead, ws_inputs

PROPERTY = 'C23'
LEVEL = 'exploration'
RULE = ('(a) library cases: 12-160 archives (many under the same file name in different boxes, some damaged) used in a random interleaving, where other archives are used '
        'even in the middle of an extraction or verification, each result compared with an independent reading of the file; '
        '(b) command cases: one random sequence of commands run in one process and, on a copy of the same world, each in a process of its own, all outputs and the final worlds compared; '
        'open archives are counted at every opening of a file, under a limit of 64 open files; non-trivial = distinct (operation, number of archives used in between, outcome)')
REQUIRED = {'operations': 8000, 'nested': 2000, 'evictions': 2000, 'command_pairs': 250, 'fd_samples': 10000, 'max_archives': 120, 'max_open': 8,
            'same_file_names': 300, 'damaged_operations': 150, '#state': 400}

# the number of archives held open must not depend on the number of archives used
BOUND = 24
FILE_LIMIT = 64
_probe = dict(on=False, w=None, nested=None)
_installed = []


def open_archives():
    n = 0
    for fd in os.listdir('/proc/self/fd'):
        try:
            if os.readlink('/proc/self/fd/' + fd).endswith('.zip'):
                n += 1
        except OSError:
            pass
    return n


def _hook(event, args):
    if event != 'open' or not _probe['on']:
        return
    path = args[0]
    if not isinstance(path, (str, bytes)) or os.fsencode(path).startswith(b'/proc'):
        return
    _probe['on'] = False
    try:
        w = _probe['w']
        if os.fsencode(path).endswith(b'.zip'):
            n = open_archives()
            w.count('fd_samples')
            w.count('max_open', n)
            w.check(n <= BOUND, 'too many archives are held open', open=n, _stop=False)
        elif _probe['nested']:
            _probe['nested']()
    finally:
        _probe['on'] = True


class probe:
    def __init__(self, w, nested=None):
        self.new = dict(on=True, w=w, nested=nested)

    def __enter__(self):
        if not _installed:
            sys.addaudithook(_hook)
            _installed.append(1)
        _probe.update(self.new)

    def __exit__(self, *exc):
        _probe.update(on=False, nested=None)


class few_files:
    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_NOFILE)
        resource.setrlimit(resource.RLIMIT_NOFILE, (FILE_LIMIT, self.old[1]))

    def __exit__(self, *exc):
        resource.setrlimit(resource.RLIMIT_NOFILE, self.old)


def plan(tier, rng):
    big = tier != 'quick'
    cases = []
    for i in range(48 if not big else 900):
        cases.append(dict(what='library', n=[12, 25, 160, 40, 11, 10, 80][i % 7], ops=250 if not big else 700))
    for i in range(32 if not big else 500):
        cases.append(dict(what='commands', n=[14, 30, 60, 20][i % 4], ops=14 if not big else 30))
    return cases


def run_case(case, w):
    bead.zipopener.close_all()
    w.count('max_archives', case['n'])
    if case['what'] == 'library':
        with few_files():
            library(case, w)
    else:
        commands(case, w)


# ---- (a)

class Used:
    def __init__(self, path, bf, damaged):
        self.path, self.bf, self.damaged = path, bf, damaged
        self.archive = None
        self.last = 0


def make_archives(case, w, top):
    rng = w.rng
    boxes = [os.path.join(top, f'box{i}') for i in range(rng.choice([1, 2, 4]))]
    if rng.random() < .5:
        # the ends of their paths are the same
        boxes = [os.path.join(top, *([f'{i}'] if i else []), 'shared', 'data', 'box') for i in range(len(boxes))]
    names = rng.sample(gen.BEAD_NAMES, 4)
    out = []
    while len(out) < case['n']:
        d = rng.choice(boxes)
        name = rng.choice(names)
        file_name = None
        if out and rng.random() < .4:
            # the same file name in another box
            file_name = os.path.basename(rng.choice(out).path)
            name = beadfile.name_from_file(file_name)
        fn = file_name or f'{name}_{beadfile.ts_from_instant(gen.gen_instant(rng))}.zip'
        if os.path.lexists(os.path.join(d, fn)):
            continue
        if file_name:
            w.count('same_file_names')
        bf = put_bead(d, rng, name, data=gen.gen_tree(rng, n=rng.choice([0, 1, 3, 5])), code=gen.gen_tree(rng, n=rng.choice([1, 3]), top_reserved=gen.TOP_RESERVED), filename=fn)
        damaged = None
        r = rng.random()
        if r < .06:
            damaged = 'not zip'
            with open(bf.path, 'wb') as f:
                f.write(rng.randbytes(rng.choice([0, 100])))
        elif r < .12:
            damaged = 'content'
            rewrite(bf.path)
        out.append(Used(bf.path, bf, damaged))
    return out


def rewrite(p):
    import zipfile
    with zipfile.ZipFile(p) as z:
        ms = [(n, z.read(n)) for n in z.namelist()]
    with zipfile.ZipFile(p, 'w') as z:
        for n, b in ms:
            z.writestr(beadfile.raw_info(n, zipfile.ZIP_STORED), b)
        z.writestr(beadfile.raw_info('data/extra-file', zipfile.ZIP_STORED), b'extra')


def library(case, w):
    rng = w.rng
    used = make_archives(case, w, os.path.join(w.dir, 'boxes'))
    state = dict(depth=0, clock=0, recent=[])

    def nested():
        if state['depth'] >= 2 or rng.random() < .75:
            return
        state['depth'] += 1
        try:
            for x in rng.sample(used, rng.choice([1, 3, min(14, len(used))])):
                w.count('nested')
                op(x, rng.choice(['content_id', 'meta', 'manifest']))
        finally:
            state['depth'] -= 1

    def touched(x):
        state['recent'].append(x.path)

    def since(x):
        '''how many other archives were used since'''
        seen = set()
        for p in reversed(state['recent']):
            if p == x.path:
                return len(seen)
            seen.add(p)
        return -1

    def op(x, what):
        w.count('operations')
        n = since(x)
        if n >= 10:
            w.count('evictions')
        touched(x)
        bf = x.bf
        try:
            if x.archive is None or what == 'create':
                x.archive = ZipArchive(x.path if rng.random() < .8 else Path(x.path), 'box')
            a = x.archive
            if what == 'content_id':
                a._content_id = None
                w.check(a.content_id == bf.content_id, 'wrong content id', path=x.path, since=n)
            elif what in ('meta', 'create'):
                got = dict(name=str(a.name), content_id=a.content_id, kind=a.kind, freeze_time=a.freeze_time_str, inputs=beadfile.spec_inputs(a.inputs))
                w.check(got == bf.record(), 'wrong metadata', path=x.path, since=n, got=got)
            elif what == 'manifest':
                w.check(a.manifest == bf.manifest, 'wrong manifest', path=x.path, since=n)
            elif what == 'validate':
                try:
                    a.validate()
                    valid = True
                except InvalidArchive:
                    valid = False
                w.check(valid == (x.damaged is None), 'wrong verdict on an archive', path=x.path, valid=valid, damaged=x.damaged, since=n)
            elif what in ('code', 'data'):
                d = os.path.join(w.dir, 'out', f'{state["clock"]}-{state["depth"]}')
                (a.unpack_code_to if what == 'code' else a.unpack_data_to)(Path(d))
                tree = dict(bf.code if what == 'code' else bf.data)
                if what == 'data' and x.damaged == 'content':
                    tree['extra-file'] = b'extra'
                got = snap.tree_files(d)
                w.check(got == tree, 'something else was extracted', path=x.path, since=n, diff=snap.diff_files(tree, got))
                shutil.rmtree(d)
            elif what == 'edit':
                d = os.path.join(w.dir, 'out', f'ws{state["clock"]}')
                ws = Workspace(d)
                a.unpack_to(ws)
                got = {k: v for k, v in snap.tree_files(d).items() if k.split('/')[0] not in gen.TOP_RESERVED}
                w.check(ws.is_valid and got == bf.code and ws_inputs(d) == beadfile.normal_inputs(bf.inputs), 'something else was opened for editing', path=x.path, since=n,
                        diff=snap.diff_files(bf.code, got))
                os.chmod(os.path.join(d, 'input'), 0o755)
                shutil.rmtree(d)
            outcome = 'ok'
            w.check(x.damaged != 'not zip', 'an archive is what it is not', path=x.path, op=what)
        except InvalidArchive as e:
            outcome = 'invalid'
            w.check(x.damaged == 'not zip', 'a good archive can not be used', path=x.path, op=what, since=n, error=repr(e), cause=repr(e.__cause__))
        if x.damaged:
            w.count('damaged_operations')
        w.seen('state', [what, min(n, 30), outcome, state['depth'], x.damaged])

    weights = rng.choice([[3, 3, 2, 2, 2, 2, 1, 0], [1, 1, 1, 1, 4, 4, 2, 1], [1, 1, 1, 6, 1, 1, 1, 2]])
    names = ['content_id', 'meta', 'manifest', 'validate', 'code', 'data', 'edit', 'create']
    hot = rng.sample(used, min(len(used), rng.choice([8, 9, 10, 11, 12])))
    mode = rng.choice(['random', 'hot', 'round robin'])
    with probe(w, nested):
        for i in range(case['ops']):
            state['clock'] = i
            x = used[i % len(used)] if mode == 'round robin' else rng.choice(hot if mode == 'hot' and rng.random() < .8 else used)
            op(x, rng.choices(names, weights)[0])
            if i % 20 == 0:
                n = open_archives()
                w.check(n <= BOUND, 'too many archives are held open', open=n)
    w.sample(dict(what='library', archives=len(used), mode=mode, ops=case['ops'], distinct_used=len(set(state['recent']))))


# ---- (b)

def build(case, w, u):
    rng = w.rng
    names = rng.sample([n for n in gen.BEAD_NAMES if '__' not in n], 4)
    kinds = rng.sample(gen.KINDS, 3)
    if rng.random() < .5:
        boxes = {n: u.add_box(n) for n in ('one', 'two')}
    else:
        # boxes having the same path in different places
        boxes = {n: u.add_box(n, u.path(*place, 'shared', 'data', 'box')) for n, place in (('one', []), ('two', ['copy']))}
    beads = []
    t = gen.gen_instant(rng)
    for i in range(case['n']):
        t += rng.choice([1, 1_000_000, 3_600_000_000])
        inputs = {}
        for b in rng.sample(beads, min(len(beads), rng.choice([0, 0, 1, 3]))):
            inputs[f'in{len(inputs)}'] = (b.kind, b.content_id, b.freeze_time_str)
        d = rng.choice(list(boxes.values()))
        beads.append(put_bead(d, rng, rng.choice(names), kind=rng.choice(kinds), instant=t, inputs=inputs,
                              data=gen.gen_tree(rng, n=rng.choice([0, 1, 2]), feature=None)))
        if rng.random() < .15:
            # a different bead under the same file name
            other = [x for x in boxes.values() if x != d][0]
            p = os.path.join(other, os.path.basename(beads[-1].path))
            if not os.path.exists(p):
                beads.append(put_bead(other, rng, beads[-1].name, kind=beads[-1].kind, instant=t, filename=os.path.basename(p)))
                w.count('same_file_names')
    workspaces = []
    for i in range(2):
        ws = u.path(f'ws{i}')
        u.must('new', ws)
        gen.write_tree(ws, {'src': b's', 'output/o': b'o'})
        workspaces.append(ws)
    return names, boxes, beads, workspaces


def random_command(w, names, boxes, beads, workspaces, counter):
    rng = w.rng
    ws = rng.choice(workspaces)
    bead = rng.choice(beads)
    nick = f'n{rng.randrange(18)}'
    kind = rng.choice(['add', 'add', 'add', 'add', 'load', 'load all', 'unload', 'unload all', 'update', 'update all', 'update all', 'status', 'status', 'index', 'web save', 'web heads', 'edit', 'edit name', 'delete', 'many'])
    counter[0] += 1
    if kind == 'add':
        return ['input', 'add', '-w', ws, '--', nick, rng.choice([bead.path, bead.name])]
    if kind in ('load', 'unload', 'update', 'delete'):
        return ['input', kind, '-w', ws, '--', nick]
    if kind in ('load all', 'unload all'):
        return ['input', kind.split()[0], '-w', ws]
    if kind == 'update all':
        return ['input', 'update', '-w', ws] + (['-t', bead.freeze_time_str] if rng.random() < .5 else [])
    if kind == 'status':
        return ['status', '-w', ws] + rng.choice([[], ['-v']])
    if kind == 'index':
        return ['box', rng.choice(['index', 'reindex']), '--all']
    if kind == 'web save':
        return ['web', 'color', 'save', f'{counter[0]}.web', 'dot', f'{counter[0]}.dot']
    if kind == 'web heads':
        return ['web', 'heads', 'color', 'save', f'{counter[0]}.web']
    if kind == 'edit':
        return ['edit', *rng.choice([[], ['--review']]), bead.path, f'edited{counter[0]}']
    if kind == 'edit name':
        return ['edit', '--', bead.name, f'edited{counter[0]}']
    return None


def commands(case, w):
    rng = w.rng
    u = User(w, 'world')
    names, boxes, beads, workspaces = build(case, w, u)
    master = os.path.join(w.dir, 'master')
    faults.clone(u.root, master)
    counter = [0]
    sequence = []
    # many inputs first, so that later commands use many beads
    for i in range(rng.choice([3, 12, 18])):
        sequence.append(['input', 'add', '-w', workspaces[0], '--', f'n{i}', rng.choice(beads).path])
    while len(sequence) < case['ops'] + 18:
        c = random_command(w, names, boxes, beads, workspaces, counter)
        if c:
            sequence.append(c)

    def run(argv, keep_open):
        r = invoke(argv, u.root, u.home, u.config, keep_open=keep_open)
        return [r.code, repr(r.crash) if r.crash else None, r.out, r.err, r.tb]

    def one_process(_fd):
        out = []
        problems = []

        class Counter:
            max_open = samples = 0

            def count(self, key, n=1):
                if key == 'max_open':
                    self.max_open = max(self.max_open, n)
                else:
                    self.samples += n

            def check(self, ok, what, **details):
                if not ok:
                    problems.append([what, details])
        c = Counter()
        with few_files(), probe(c):
            for argv in sequence:
                out.append(run(argv, keep_open=True))
        return dict(out=out, max_open=c.max_open, samples=c.samples, problems=problems)
    together = faults.in_child(one_process, timeout=120).data
    w.check(together.get('out') is not None, 'the process running all commands died', _stop=True)
    for what, details in together['problems'][:1]:
        w.violate(what, **details)
    w.count('max_open', together['max_open'])
    w.count('fd_samples', together['samples'])
    world_together = snap.snapshot(u.root)
    from harness.runner import force_rmtree
    force_rmtree(u.root)
    faults.clone(master, u.root)
    for argv, together_out in zip(sequence, together['out']):
        def single(_fd):
            with few_files():
                return dict(out=run(argv, keep_open=False))
        alone = faults.in_child(single, timeout=60).data.get('out')
        w.count('commands', 2)
        w.count('command_pairs')
        w.check(alone is not None and alone[1] is None, 'a command crashed', argv=argv, alone=alone)
        w.check(strip(alone) == strip(together_out), 'a command has a different result in a process that handled other beads', argv=argv, alone=alone, together=together_out, _stop=True)
        w.seen('state', [argv[:2], alone[0], len([a for a in os.listdir(u.root)])])
    world_alone = snap.snapshot(u.root)
    drop = lambda s: {k: v for k, v in s.items() if not k.endswith('.index.sqlite')}
    w.check(drop(world_alone) == drop(world_together), 'commands have different effects in one process', diff=snap.diff(drop(world_alone), drop(world_together)))
    w.sample(dict(what='commands', beads=len(beads), commands=len(sequence), max_open=together['max_open']))


def strip(result):
    '''without the traceback'''
    return result and result[:4]

import json
import os
import random
import shutil
import subprocess
import sys
import time

from harness import beadfile, faults, gen, snap
from harness.cli import User, invoke
from harness.world import box_records, is_valid_ws, put_bead, ws_inputs, ws_meta

PROPERTY = 'C26'
NEEDS_SHIM = True
LEVEL = 'exploration'
RULE = ('(a) creation cases: workspaces of the same and of different names and places are created by concurrent processes (forked and really started ones) while the clock is frozen '
        'or steps slowly or goes back, also the same place again and again, all kinds ever seen by a worker are compared; '
        '(b) lineage cases: random trees of save, edit (by name, file, copy, other name, older version), input commands, moving and renaming of workspaces, boxes with and without index '
        'starting from new workspaces and from beads of arbitrary kinds, the kind of every workspace and stored bead is compared with that of its origin; '
        'non-trivial = distinct kinds created and distinct (origin, sequence of operations) lineages')
REQUIRED = {'created': 2000, 'same_instant': 1500, 'same_place': 150, 'real_processes': 60, 'saves': 400, 'edits': 400, 'lineage_beads': 600, 'max_depth': 3, '#kind': 2000, '#lineage': 130}
_kinds = {}


def plan(tier, rng):
    big = tier != 'quick'
    cases = []
    for i in range(24 if not big else 200):
        cases.append(dict(what='create', mode=['fork', 'same place', 'process', 'fork'][i % 4], clock=['frozen', 'frozen', 'slow', 'back'][i // 4 % 4]))
    for i in range(48 if not big else 800):
        cases.append(dict(what='lineage', steps=60 if not big else 120))
    return cases


def run_case(case, w):
    if case['what'] == 'create':
        create(case, w)
    else:
        lineage(case, w)


def add_kind(w, kind, info):
    w.count('created')
    w.check(isinstance(kind, str) and kind, 'workspace without a kind', kind=repr(kind), **info)
    w.check(kind not in _kinds, 'two workspaces have the same kind', kind=kind, first=_kinds.get(kind), second=info)
    _kinds.setdefault(kind, info)
    w.seen('kind', kind)


PROCESS = '''
import ctypes, os, sys
lib = ctypes.CDLL(os.environ['LD_PRELOAD'])
lib.shim_clock.argtypes = [ctypes.c_int, ctypes.c_longlong, ctypes.c_longlong]
lib.shim_clock(1, int(sys.argv[1]), int(sys.argv[2]))
from bead_cli.main import run
for target in sys.argv[4:]:
    if run(sys.argv[3], ['new', target]):
        sys.exit('failed')
'''


def create(case, w):
    rng = w.rng
    u = User(w)
    now = 1_600_000_000_000_000 + rng.randrange(10 ** 6)
    step = {'frozen': 0, 'slow': 1, 'back': -1}[case['clock']]
    same_name = rng.random() < .5

    def target(i, j):
        return os.path.join(u.mkdir(f'p{i}', f'd{j}'), 'same' if same_name else f'ws{i}-{j}')
    if case['mode'] == 'same place':
        # the same path, the same instant, over and over
        ws = u.path('ws')
        for i in range(24):
            def run(_fd):
                random.seed()
                L = faults.lib()
                L.shim_clock(1, now, step)
                r = invoke(['new', ws], u.root, u.home, u.config)
                L.shim_clock(0, 0, 0)
                return dict(ok=r.ok, out=repr(r))
            out = faults.in_child(run).data
            w.check(out.get('ok'), 'a workspace can not be created', out=out, _stop=True)
            add_kind(w, ws_meta(ws)['kind'], dict(mode=case['mode'], ws=ws, i=i))
            w.count('same_place')
            w.count('same_instant')
            u.must('discard', ws)
        return
    n, per = (40, 4) if case['mode'] == 'fork' else (10, 3)
    targets = [[target(i, j) for j in range(per)] for i in range(n)]
    if case['mode'] == 'process':
        ps = [subprocess.Popen([sys.executable, '-c', PROCESS, str(now), str(step), u.config, *ts], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=u.root,
                               env={**os.environ, 'HOME': u.home, 'PYTHONHASHSEED': rng.choice(['0', 'random'])}) for ts in targets]
        for p in ps:
            err = p.communicate(timeout=120)[1]
            w.count('real_processes')
            w.check(p.returncode == 0, 'a workspace can not be created', err=err[-500:].decode('utf-8', 'replace'), _stop=True)
    else:
        r, go = os.pipe()
        pids = []
        for ts in targets:
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(go)
                    # as a fresh process would be
                    random.seed()
                    os.read(r, 1)
                    L = faults.lib()
                    L.shim_clock(1, now, step)
                    code = 0
                    for t in ts:
                        if not invoke(['new', t], u.root, u.home, u.config).ok:
                            code = 1
                finally:
                    os._exit(code)
            pids.append(pid)
        os.close(r)
        os.close(go)        # all start now
        for pid in pids:
            _, status = os.waitpid(pid, 0)
            w.check(status == 0, 'a workspace can not be created', status=status, _stop=True)
    for ts in targets:
        for t in ts:
            w.check(is_valid_ws(t), 'workspace is not valid', ws=t)
            add_kind(w, ws_meta(t)['kind'], dict(mode=case['mode'], clock=case['clock'], ws=t))
            if case['clock'] == 'frozen':
                w.count('same_instant')
    w.sample(dict(what='create', mode=case['mode'], clock=case['clock'], workspaces=n * per, same_name=same_name))


class Node:
    '''a workspace or a stored bead'''

    def __init__(self, path, origin, history):
        self.path, self.origin, self.history = path, origin, history


def lineage(case, w):
    rng = w.rng
    u = User(w)
    boxes = {n: u.add_box(n) for n in ('one', 'two')}
    elsewhere = u.mkdir('elsewhere')
    for n in boxes:
        if rng.random() < .4:
            u.must('box', 'index', '--box', n)
    names = rng.sample([n for n in gen.BEAD_NAMES if '__' not in n and not n.startswith('-')], 3) + ['common']
    kinds = {}              # origin -> kind
    workspaces, beads = [], []
    counter = [0]

    def fresh(name=None):
        counter[0] += 1
        return os.path.join(u.mkdir('work', str(counter[0])), name or rng.choice(names))

    def kind_of(ws):
        return ws_meta(ws)['kind']

    def new():
        ws = fresh()
        u.must('new', '--', ws)
        k = kind_of(ws)
        add_kind(w, k, dict(mode='lineage', ws=ws))
        w.check(k not in kinds.values(), 'new workspace with a known kind', kind=k)
        kinds[ws] = k
        gen.write_tree(ws, {'src': b's', 'output/o': b'o'})
        workspaces.append(Node(ws, ws, ['new']))
        return True

    def foreign():
        '''a bead of an arbitrary kind'''
        k = rng.choice([k for k in gen.KINDS + ['', 'x' * 2000, '\n', '日本', 'None', '0'] if k not in kinds.values()] or [None])
        if k is None:
            return False
        b = put_bead(boxes['one'], rng, rng.choice(names), kind='placeholder', instant=gen.gen_instant(rng))
        os.unlink(b.path)
        b = put_bead(boxes['one'], rng, b.name, kind=k or 'empty', instant=b.instant)
        kinds[b.path] = b.kind
        beads.append(Node(b.path, b.path, ['foreign']))
        u.must('box', 'index', '--all')
        return True

    def save():
        if not workspaces:
            return False
        ws = rng.choice(workspaces[-2:] if rng.random() < .6 else workspaces)
        box = rng.choice(list(boxes))
        before = set(os.listdir(boxes[box]))
        if rng.random() < .5:
            with open(os.path.join(ws.path, 'src'), 'ab') as f:
                f.write(b'+')
        u.must('save', box, cwd=ws.path)
        added = [n for n in os.listdir(boxes[box]) if n not in before and n.endswith('.zip')]
        w.check(len(added) == 1, 'save stored something else than one bead', added=added, _stop=True)
        b = Node(os.path.join(boxes[box], added[0]), ws.origin, ws.history + ['save'])
        beads.append(b)
        w.count('saves')
        check_bead(b)
        check_ws(ws)
        return True

    def check_bead(b):
        k = beadfile.BeadFile(b.path).kind
        w.count('lineage_beads')
        w.count('max_depth', len([h for h in b.history if h.startswith('edit')]))
        w.check(k == kinds[b.origin], 'a bead has another kind than its origin', kind=k, origin=kinds[b.origin], history=b.history)
        w.seen('lineage', b.history)

    def check_ws(ws):
        k = kind_of(ws.path)
        w.check(k == kinds[ws.origin], 'a workspace has another kind than its origin', kind=k, origin=kinds[ws.origin], history=ws.history)

    def edit():
        live = [b for b in beads if os.path.exists(b.path)]
        if not live:
            return False
        b = rng.choice(live[-3:] if rng.random() < .6 else live)
        how = rng.choice(['file', 'file', 'name', 'copy', 'time'])
        opts = rng.choice([[], ['--review']])
        target = fresh()
        if how == 'copy':
            c = os.path.join(elsewhere, rng.choice(names) + f'{counter[0]}.zip')
            shutil.copy(b.path, c)
            u.must('edit', *opts, '--', c, target)
        elif how in ('name', 'time'):
            bf = beadfile.BeadFile(b.path)
            all = [r for n, d in boxes.items() for r in box_records(d, n) if r.name == bf.name]
            limit = []
            if how == 'time':
                limit = ['-t', bf.freeze_time_str]
                all = [r for r in all if r.instant <= bf.instant]
            newest = max(all, key=lambda r: r.instant)
            if sum(r.instant == newest.instant and r.content_id != newest.content_id for r in all):
                return False
            b = next(x for x in beads if os.path.exists(x.path) and beadfile.BeadFile(x.path).content_id == newest.content_id)
            u.must('edit', *opts, *limit, '--', bf.name, target)
        else:
            u.must('edit', *opts, '--', b.path, target)
        ws = Node(target, b.origin, b.history + [f'edit {how}'])
        workspaces.append(ws)
        w.count('edits')
        check_ws(ws)
        if rng.random() < .5:
            r = u.must('status', '-v', cwd=target)
            w.check(kinds[ws.origin] in r.out, 'status shows another kind', out=r.out, kind=kinds[ws.origin])
        return True

    def inputs():
        live = [b for b in beads if os.path.exists(b.path)]
        if not workspaces or not live:
            return False
        ws = rng.choice(workspaces)
        known = sorted(ws_inputs(ws.path))
        op = rng.choice(['add', 'add', 'update', 'update all', 'delete', 'unload', 'load'])
        if op == 'add' or not known:
            b = rng.choice(live)
            u.must('input', 'add', '--', rng.choice(['a', 'b', 'c']), b.path, cwd=ws.path)
        elif op == 'update all':
            u.must('input', 'update', cwd=ws.path)
        elif op == 'update':
            b = rng.choice(live)
            u.must('input', 'update', '--', rng.choice(known), b.path, cwd=ws.path)
        else:
            u.must('input', op, '--', rng.choice(known), cwd=ws.path)
        ws.history = ws.history + ['input ' + op]
        check_ws(ws)
        for nick, (k, cid, t) in ws_inputs(ws.path).items():
            origin = [b.origin for b in beads if os.path.exists(b.path) and beadfile.BeadFile(b.path).content_id == cid]
            w.check(not origin or k in {kinds[o] for o in origin}, 'an input has another kind than its bead', nick=nick, kind=k)
        return True

    def move():
        if not workspaces:
            return False
        ws = rng.choice(workspaces)
        p = fresh()
        os.rename(ws.path, p)
        ws.path = p
        ws.history = ws.history + ['move']
        return True

    def copy():
        '''a copied workspace continues the same computation'''
        if not workspaces:
            return False
        ws = rng.choice(workspaces)
        p = fresh()
        faults.clone(ws.path, p)
        workspaces.append(Node(p, ws.origin, ws.history + ['copy']))
        return True

    def discard():
        if len(workspaces) < 2:
            return False
        ws = workspaces.pop(rng.randrange(len(workspaces)))
        u.must('discard', ws.path)
        if rng.random() < .5:
            # a new one at the same place is another computation
            u.must('new', '--', ws.path)
            k = kind_of(ws.path)
            add_kind(w, k, dict(mode='same place', ws=ws.path))
            w.count('same_place')
            counter[0] += 1
            origin = f'{ws.path} {counter[0]}'
            kinds[origin] = k
            gen.write_tree(ws.path, {'src': b's', 'output/o': b'o'})
            workspaces.append(Node(ws.path, origin, ['new again']))
        return True

    new()
    if rng.random() < .6:
        foreign()
    ops = [new, foreign, save, save, save, edit, edit, edit, inputs, inputs, move, copy, discard]
    for _ in range(case['steps']):
        rng.choice(ops)()
        w.count('steps')
    # everything again at the end
    for b in beads:
        if os.path.exists(b.path):
            check_bead(b)
    for ws in workspaces:
        check_ws(ws)
    w.sample(dict(what='lineage', origins=len(kinds), beads=len(beads), workspaces=len(workspaces), longest=max((n.history for n in beads + workspaces), key=len)))

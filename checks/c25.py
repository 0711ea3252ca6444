import errno
import os
import re
import resource
import stat

from harness import audit, beadfile, gen, snap
from harness.session import Session
from harness.world import box_records, is_valid_ws, put_bead, ws_inputs

PROPERTY = 'C25'
LEVEL = 'exploration'
RULE = ('one case = one random history of all commands (successful, refused, failing by an injected I/O error, interrupt or full disk) over three workspaces with user files of all kinds, '
        'two boxes with good, damaged and foreign files; after every command everything in the boxes (bytes, permissions, times) and all files of the users '
        '(bytes, permissions, times, links) and the other workspaces are compared with the state before, and every modification made by the process is checked online; '
        'non-trivial = distinct (command, outcome, fault) tuples')
REQUIRED = {'commands_checked': 3000, 'archives_compared': 20000, 'user_files_compared': 50000, 'saves': 150, 'edits': 80, 'input_commands': 700, 'box_commands': 150,
            'web_commands': 60, 'discards': 25, 'faults': 250, 'refused': 150, '#state': 40}


def plan(tier, rng):
    n = 176 if tier == 'quick' else 2500
    return [dict(steps=30 if tier == 'quick' else 60, faults=i % 3 == 0) for i in range(n)]


def user_files(rng, ws):
    '''files of the user of all kinds'''
    tree = gen.gen_tree(rng, n=6, top_reserved=gen.TOP_RESERVED, feature=rng.choice([None, 2, 3, 9, 10]))
    gen.write_tree(ws, tree, rng, decorate=True, store=os.path.join(os.path.dirname(ws), '..', 'linked'))
    for area in ('output', 'temp'):
        gen.write_tree(os.path.join(ws, area), gen.gen_tree(rng, n=4, feature=rng.choice([None, 9, 11])), rng, decorate=True)
    os.makedirs(os.path.join(ws, 'lib', 'empty-dir', 'directory'), exist_ok=True)
    os.makedirs(os.path.join(ws, 'temp', 'empty-dir'), exist_ok=True)
    gen.write_tree(ws, {'lib/ro': b'read only', 'output/ro': b'ro', 'temp/ro': b'ro', 'lib/x.py': b'x'})
    for n in ('lib/ro', 'output/ro', 'temp/ro'):
        os.chmod(os.path.join(ws, n), 0o444)
    os.symlink('ro', os.path.join(ws, 'temp', 'link'))
    os.symlink('nowhere', os.path.join(ws, 'temp', 'dangling'))
    os.symlink('../temp', os.path.join(ws, 'temp', 'td'))


def own_directories(rng, ws):
    '''files of the user in a workspace having files'''
    for area in (ws, os.path.join(ws, 'output'), os.path.join(ws, 'temp')):
        d = os.path.join(area, 'own files')
        if not os.path.lexists(d):
            os.mkdir(d)
            gen.write_tree(d, gen.gen_tree(rng, n=4, feature=rng.choice([None, 3, 9, 10])), rng, decorate=True)


class limited:
    def __init__(self, size):
        self.size = size

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.size, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


class State:
    '''everything that must not change'''

    def __init__(self, s, extra):
        self.boxes = {}
        for n, d in s.boxes.items():
            x = snap.snapshot(d, mtimes=True)
            # the index is not an archive, and directories change with what they hold
            self.boxes[n] = {k: v for k, v in x.items() if not k.startswith('.index.sqlite') and k != '.'}
        self.workspaces = {}
        for ws in extra:
            x = snap.snapshot(ws, mtimes=True) if os.path.lexists(ws) else None
            self.workspaces[ws] = x

    @staticmethod
    def own(x):
        '''the own areas of the user'''
        return None if x is None else {k: v for k, v in x.items() if k.split('/')[0] not in ('.', 'input', '.bead-meta')}


def run_case(case, w):
    rng = w.rng
    s = Session(w, boxes=2, beads=6, workspaces=2)
    u = s.u
    foreign = os.path.join(s.boxes['box0'], 'notes.txt')
    with open(foreign, 'w') as f:
        f.write('not a bead')
    os.mkdir(os.path.join(s.boxes['box1'], 'directory'))
    for n in rng.sample(s.files(), 2):
        os.chmod(n, rng.choice([0o444, 0o400, 0o664]))
    all_ws = list(s.workspaces)
    for ws in all_ws:
        user_files(rng, ws)
    # a workspace inside of another one
    nested = os.path.join(s.workspaces[0], 'temp', 'nested')
    if rng.random() < .4:
        u.must('new', nested)
        user_files(rng, nested)
        all_ws.append(nested)
        s.workspaces.append(nested)
    counter = 0
    for step in range(case['steps']):
        if rng.random() < .12:
            s.environment()
            continue
        counter += 1
        fault = rng.choice(['io', 'interrupt', 'full']) if case['faults'] and rng.random() < .4 else None
        before = State(s, all_ws)
        kind, target, run = choose(s, rng, all_ws, counter)
        if run is None:
            continue
        log = []
        if fault == 'full':
            with limited(rng.choice([0, 100, 3000, 150_000])):
                r = run()
        else:
            n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 15, 20, 30])
            exc = {'io': OSError(errno.EIO, 'injected'), 'interrupt': KeyboardInterrupt('injected')}.get(fault)
            with audit.watch(fence=w.dir, fault=exc and (n, exc)) as log:
                r = run()
            if fault and not any(e == 'FAULT' for e, _ in log):
                fault = None
        if r is None:
            continue
        if fault:
            w.count('faults')
        if r.refused:
            w.count('refused')
        after = State(s, all_ws)
        check(w, s, kind, target, r, before, after, log, fault, nested)
        w.count('commands_checked')
        w.seen('state', [kind, r.code, fault])
        if kind == 'discard' and not r.ok:
            # partially removed
            u.bead('discard', '--force', target)
        for ws in list(all_ws):
            if not os.path.lexists(ws):
                all_ws.remove(ws)
                if ws in s.workspaces:
                    s.workspaces.remove(ws)
        if kind == 'new' and r.ok or kind.startswith('edit') and r.ok:
            if is_valid_ws(target):
                if len(all_ws) < 5:
                    user_files(rng, target) if kind == 'new' else own_directories(rng, target)
                    all_ws.append(target)
                    s.workspaces.append(target)
        if not s.workspaces:
            ws = os.path.join(s.work, f'again{counter}')
            u.must('new', ws)
            user_files(rng, ws)
            all_ws.append(ws)
            s.workspaces.append(ws)
    w.sample(dict(workspaces=len(all_ws), archives=len(s.files()), damaged=len(s.damaged), nested=nested in all_ws))


def choose(s, rng, all_ws, counter):
    '''(kind of command, its target workspace or None, function)'''
    u, w = s.u, s.w
    ws = rng.choice(s.workspaces)
    beads = s.good_beads()
    bead = rng.choice(beads) if beads else None

    def existing(*candidates):
        return rng.choice([c for c in candidates if os.path.lexists(c)])
    kind = rng.choice(['input'] * 6 + ['save'] * 3 + ['status', 'edit', 'edit', 'edit existing', 'edit damaged', 'new', 'new existing', 'box', 'box', 'web', 'discard', 'discard plain', 'save unknown', 'box forget'])
    cwd = rng.choice([ws, os.path.join(ws, 'output'), os.path.join(ws, 'temp')])
    box = rng.choice(list(s.boxes))
    if kind == 'input':
        w.count('input_commands', 0)

        def run():
            op = s.input_op(ws)
            return op and op.result
        return kind, ws, run
    if kind == 'save':
        w.count('saves')
        return kind, None, lambda: u.bead('save', box, cwd=cwd)
    if kind == 'save unknown':
        return kind, None, lambda: u.bead('save', 'unknown', cwd=cwd)
    if kind == 'status':
        return kind, None, lambda: u.bead('status', *rng.choice([[], ['-v']]), cwd=cwd)
    if kind == 'new':
        p = os.path.join(s.work, f'new{counter}')
        return kind, p, lambda: u.bead('new', p)
    if kind == 'new existing':
        p = existing(ws, os.path.join(ws, 'lib'), s.boxes[box], os.path.join(ws, 'output', 'ro'))
        return kind, None, lambda: u.bead('new', p)
    if kind == 'edit' and bead:
        w.count('edits')
        p = os.path.join(s.work, f'edit{counter}')
        return kind, p, lambda: u.bead('edit', *rng.choice([[], ['--review']]), '--', rng.choice([bead.path, bead.name]), p)
    if kind == 'edit existing' and bead:
        p = existing(ws, os.path.join(ws, 'lib'), os.path.join(ws, 'lib', 'empty-dir'), s.boxes[box], os.path.join(ws, 'temp', 'empty-dir'))
        return kind, None, lambda: u.bead('edit', *rng.choice([[], ['--review']]), '--', bead.path, p)
    if kind == 'edit damaged' and s.damaged:
        p = os.path.join(s.work, f'edit{counter}')
        return kind, p, lambda: u.bead('edit', '--', rng.choice(list(s.damaged)), p)
    if kind == 'box':
        w.count('box_commands')
        argv = rng.choice([['box', 'index', '--all'], ['box', 'reindex', '--box', box], ['box', 'index', '--dir', s.boxes[box]], ['box', 'reindex', '--all'], ['box', 'list'],
                           ['box', 'add', 'x', s.boxes[box]], ['box', 'add', box, u.root]])
        return kind, None, lambda: u.bead(*argv)
    if kind == 'box forget':
        w.count('box_commands')

        def run():
            r = u.bead('box', 'forget', box)
            if u.bead('box', 'add', box, s.boxes[box]).crash:
                u.bead('box', 'add', box, s.boxes[box])
            return r
        return kind, None, run
    if kind == 'web':
        w.count('web_commands')
        argv = rng.choice([['web', 'color', 'save', u.path('x.web')], ['web', 'heads', 'dot', u.path('x.dot')], ['web', 'load', u.path('x.web'), 'color', 'dot', u.path('y.dot')]])
        return kind, None, lambda: u.bead(*argv)
    if kind == 'discard' and rng.random() < .5:
        w.count('discards')
        return kind, ws, lambda: u.bead('discard', cwd=cwd)
    if kind == 'discard plain':
        p = existing(os.path.join(ws, 'lib'), os.path.join(ws, 'output'), s.boxes[box], s.work, os.path.join(ws, 'input'))
        return kind, None, lambda: u.bead('discard', p)
    return kind, None, None


def inside(p, top):
    return p == top or p.startswith(top + '/')


def check(w, s, kind, target, r, before, after, log, fault, nested):
    info = dict(kind=kind, fault=fault, result=repr(r))
    # archives
    added = []
    for n in s.boxes:
        b, a = before.boxes[n], after.boxes[n]
        w.count('archives_compared', len(b))
        changed = {k: (b[k], a.get(k, 'removed')) for k in b if a.get(k) != b[k]}
        w.check(not changed, 'something in a box was changed', box=n, changed=dict(list(changed.items())[:4]), **info)
        added += [(n, k) for k in a if k not in b]
    if kind == 'save' and r.ok:
        w.check(len(added) == 1 and added[0][1].endswith('.zip'), 'a save added something else than one archive', added=added, **info)
    else:
        w.check(not added, 'something appeared in a box', added=added, **info)
    # files of users
    for ws, b in before.workspaces.items():
        a = after.workspaces[ws]
        if kind == 'discard' and inside(ws, target):
            continue
        own_b, own_a = State.own(b), State.own(a)
        if kind == 'discard' and target == nested and inside(nested, ws):
            drop = os.path.relpath(nested, ws)
            own_b, own_a = ({k: v for k, v in x.items() if not inside(k, drop)} for x in (own_b, own_a))
        elif target and inside(target, ws) and target != ws:
            # commands in the inner workspace
            drop = os.path.relpath(target, ws)
            own_b, own_a = ({k: v for k, v in x.items() if not inside(k, drop)} for x in (own_b, own_a))
        w.count('user_files_compared', len(own_b))
        w.check(own_a == own_b, 'files of the user were changed', ws=os.path.basename(ws), diff=snap.diff(own_b, own_a or {}), **info)
        if target != ws and not (target and inside(target, ws)):
            w.check(a == b, 'another workspace was changed', ws=os.path.basename(ws), diff=snap.diff(b, a or {}), **info)
    # online: what the process modified
    allowed_in_ws = ('input', '.bead-meta')
    for event, p in log:
        if event in ('FAULT', 'BLOCKED'):
            w.check(event != 'BLOCKED', 'modification outside of the world', path=p, **info)
            continue
        box = next((d for d in s.boxes.values() if inside(p, os.path.realpath(d))), None)
        if box:
            rel = os.path.relpath(p, os.path.realpath(box))
            old = before.boxes[next(n for n, d in s.boxes.items() if d == box)]
            w.check(rel == '.' or rel not in old, 'an archive was modified', event=event, path=rel, **info)
            continue
        for ws in before.workspaces:
            if not inside(p, os.path.realpath(ws)) or any(x != ws and inside(x, ws) and inside(p, x) for x in before.workspaces):
                continue
            if kind == 'discard' and inside(p, target):
                continue
            if kind in ('new', 'edit', 'edit damaged') and target and inside(p, target):
                continue
            rel = os.path.relpath(p, os.path.realpath(ws))
            w.check(ws == target and rel.split('/')[0] in allowed_in_ws, 'a file of the user was modified', event=event, path=rel, ws=os.path.basename(ws), **info)

import errno
import os
import random
import shutil
import stat

from harness import audit, gen, snap
from harness.cli import User
from harness.world import is_valid_ws, put_bead, ws_inputs, ws_meta

PROPERTY = 'C22'
LEVEL = 'exploration'
RULE = ('one case = a world of two workspaces, boxes and an outside tree (all permissions), with symbolic and hard links from everywhere in a workspace to everywhere, '
        'in which removal commands are run one after the other, some with an I/O error at a random modification; the whole world except the target is compared '
        '(names, content, links, permissions) and every modification made by the process is checked online; non-trivial = distinct (command, outcome, link kinds in target, fault)')
REQUIRED = {'commands': 1500, 'discards': 100, 'forced': 30, 'refused_discards': 200, 'unloads': 100, 'deletes': 80, 'updates': 80, 'linked_inputs': 40,
            'symlinks': 2000, 'hardlinks': 800, 'modifications': 5000, 'faults': 60, '#state': 150}

FILE_MODES = [0o644, 0o444, 0o400, 0o600, 0o000, 0o755, 0o555, 0o666, 0o440]
DIR_MODES = [0o755, 0o555, 0o700, 0o500, 0o775]
NICKS = ['a', 'ab', 'a.b', 'in put', 'ünï', '[a]', '*', '.a', 'A', 'a b', '~', 'output', 'b', '..a', 'n' * 255]


def plan(tier, rng):
    n = 320 if tier == 'quick' else 4000
    # (first those where following links comes to an end)
    return [dict(steps=9 if tier == 'quick' else 16, faults=i % 3 == 1, cycles=i >= n // 4) for i in range(n)]


def outside_tree(rng, top):
    '''files and directories with all kinds of permissions; returns (files, dirs)'''
    files, dirs = [], [top]
    os.makedirs(top, exist_ok=True)
    for i in range(3):
        d = os.path.join(top, rng.choice(['d', 'ro', 'data', 'ünï']) + str(i))
        os.makedirs(os.path.join(d, 'sub'))
        dirs += [d, os.path.join(d, 'sub')]
    for d in dirs:
        for i in range(rng.choice([1, 2, 3])):
            p = os.path.join(d, f'{rng.choice(["f", "x.csv", ".h"])}{i}')
            with open(p, 'wb') as f:
                f.write(rng.randbytes(20))
            os.chmod(p, rng.choice(FILE_MODES))
            files.append(p)
    return files, dirs


class World:
    def __init__(self, w, cycles=True):
        self.w, self.rng = w, w.rng
        self.cycles = cycles
        rng = w.rng
        self.u = u = User(w)
        self.box = u.add_box('box')
        self.outside = u.path('outside')
        self.files, self.dirs = outside_tree(rng, self.outside)
        self.names = rng.sample(gen.BEAD_NAMES, 3)
        self.kinds = rng.sample(gen.KINDS, 2)
        self.beads = []
        for i in range(5):
            self.beads.append(put_bead(
                self.box, rng, rng.choice(self.names), kind=rng.choice(self.kinds), instant=gen.gen_instant(rng),
                data=gen.gen_tree(rng, n=rng.choice([1, 2, 5]), feature=rng.choice([None] * 4 + [6, 7, 9, 10, 11])), filename=f'b{i}_{i}.zip'))
        u.mkdir('work')
        self.workspaces = []
        names = rng.choice([('ws', 'ws2'), ('ws2', 'ws'), ('a', 'a/lib/inner'), ('x[1]', 'x1'), ('p', 'p.d'), ('n', 'n/output/inner'), ('n', 'n/temp/d/inner')])
        for n in names:
            ws = u.path('work', n)
            os.makedirs(os.path.dirname(ws), exist_ok=True)
            u.must('new', ws)
            gen.write_tree(ws, {'src': b's', 'lib/x.py': b'x', 'lib/deep/er/y': b'y', 'output/o': b'o', 'output/d/o2': b'o2', 'temp/t': b't', 'temp/td/t2': b't2'})
            self.workspaces.append(ws)
            for nick in rng.sample(NICKS, 4):
                u.must('input', 'add', '--', nick, rng.choice(self.beads).path, cwd=ws)
            if rng.random() < .5:
                u.must('input', 'unload', '--', sorted(ws_inputs(ws))[0], cwd=ws)
        self.links = {}
        for ws in self.workspaces:
            self.decorate(ws)
        # read only parts outside, but not before links have been made
        for d in self.dirs[1:]:
            os.chmod(d, rng.choice(DIR_MODES))
        self.not_workspaces()

    def decorate(self, ws):
        '''links from the workspace to anywhere'''
        rng, w = self.rng, self.w
        other = [x for x in self.workspaces if x != ws]
        places = [ws, 'lib', 'lib/deep', 'output', 'output/d', 'temp', 'temp/td', '.bead-meta']
        for n in os.listdir(os.path.join(ws, 'input')):
            for d, dirs, files in os.walk(os.path.join(ws, 'input', n)):
                places.append(d)
        kinds = self.links.setdefault(ws, set())
        for place in places:
            place = os.path.join(ws, place)
            if rng.random() < .25 and place != ws:
                continue
            mode = stat.S_IMODE(os.lstat(place).st_mode)
            os.chmod(place, mode | 0o700)
            for i in range(rng.choice([1, 2, 4])):
                p = os.path.join(place, f'link{i}')
                hows = ['file', 'dir', 'file', 'dir', 'dangling', 'loop', 'up', 'box', 'other', 'hard', 'hard', 'hard', 'inside', 'inside hard']
                how = rng.choice([h for h in hows if self.cycles or h not in ('loop', 'up', 'other', 'inside')])
                kinds.add((os.path.relpath(place, ws).split('/')[0], how))
                if how in ('hard', 'inside hard'):
                    t = rng.choice(self.files) if how == 'hard' else os.path.join(ws, 'src')
                    try:
                        os.link(t, p)
                    except PermissionError:
                        # protected_hardlinks: needs write permission
                        m = stat.S_IMODE(os.stat(t).st_mode)
                        os.chmod(t, 0o600)
                        os.link(t, p)
                        os.chmod(t, m)
                    w.count('hardlinks')
                    continue
                t = {
                    'file': rng.choice(self.files), 'dir': rng.choice(self.dirs), 'dangling': os.path.join(self.outside, 'nowhere', 'to', 'go'),
                    'loop': p, 'up': rng.choice([ws, os.path.dirname(ws), place, self.u.root]), 'box': rng.choice([self.box, self.beads[0].path]),
                    'other': os.path.join(rng.choice(other or [self.outside]), rng.choice(['', 'input', 'output', 'src', '.bead-meta'])),
                    'inside': os.path.join(ws, rng.choice(['output', 'input', 'lib', 'src', 'nothing']))}[how]
                if rng.random() < .5:
                    t = os.path.relpath(t, place)
                os.symlink(t, p)
                w.count('symlinks')
            os.chmod(place, mode)
        # own directories and files that are protected by the user
        for d in rng.sample(['lib/deep/er', 'lib/deep', 'output/d', 'temp/td', 'lib'], 2):
            # removing a nested workspace needs its parent directory
            if not any(is_within(x, os.path.join(ws, d)) for x in self.workspaces):
                os.chmod(os.path.join(ws, d), rng.choice(DIR_MODES))
        for f in rng.sample(['src', 'lib/x.py', 'output/o', 'output/d/o2', 'temp/t'], 2):
            p = os.path.join(ws, f)
            if os.stat(p).st_nlink == 1:
                os.chmod(p, rng.choice(FILE_MODES))

    def link_input(self, ws, nick):
        '''replace the data of an input with a link to the same kind of data elsewhere'''
        rng = self.rng
        top = os.path.join(ws, 'input')
        p = os.path.join(top, nick)
        if os.path.islink(p) or not os.path.isdir(p):
            return False
        os.chmod(top, 0o755)
        self.make_removable(p)
        shutil.rmtree(p)
        t = rng.choice(self.dirs)
        os.symlink(t if rng.random() < .5 else os.path.relpath(t, top), p)
        os.chmod(top, 0o555)
        self.w.count('linked_inputs')
        return True

    def make_removable(self, p):
        for d, dirs, files in os.walk(p):
            os.chmod(d, stat.S_IMODE(os.lstat(d).st_mode) | 0o700)

    def not_workspaces(self):
        '''directories that look like workspaces but are not'''
        rng = self.rng
        self.fakes = []
        for miss in ('input', 'output', 'temp', '.bead-meta/bead', '.bead-meta', 'all', 'input file', 'meta dir'):
            d = self.u.mkdir('work', 'fake-' + miss.replace('/', '-').replace(' ', '-'))
            if miss != 'all':
                for x in ('input', 'output', 'temp', '.bead-meta'):
                    if x == miss or (x == 'input' and miss == 'input file'):
                        continue
                    os.makedirs(os.path.join(d, x))
                if miss == 'meta dir':
                    os.makedirs(os.path.join(d, '.bead-meta', 'bead'))
                elif not miss.startswith('.bead-meta'):
                    shutil.copy(os.path.join(self.workspaces[0], '.bead-meta', 'bead'), os.path.join(d, '.bead-meta', 'bead'))
                if miss == 'input file':
                    with open(os.path.join(d, 'input'), 'w'):
                        pass
            with open(os.path.join(d, 'precious'), 'w') as f:
                f.write(miss)
            os.symlink(self.outside, os.path.join(d, 'link'))
            os.link(rng.choice([f for f in self.files if os.access(f, os.W_OK)] or [os.path.join(d, 'precious')]), os.path.join(d, 'hard'))
            self.fakes.append(d)


def is_within(p, top):
    return p == top or p.startswith(top + '/')


def without(s, root, top):
    '''snapshot without a subtree'''
    rel = os.path.relpath(top, root)
    return {k: v for k, v in s.items() if not is_within(k, rel)}


def run_case(case, w):
    rng = w.rng
    world = World(w, case['cycles'])
    u = world.u
    for step in range(case['steps']):
        live = [ws for ws in world.workspaces if is_valid_ws(ws)]
        if not live:
            break
        ws = rng.choice(live)
        op = rng.choice(['unload', 'unload', 'delete', 'delete', 'update', 'update', 'unload all', 'discard fake', 'discard fake', 'discard sub', 'discard'])
        if step == case['steps'] - 1:
            op = 'discard'
        if op == 'discard fake':
            discard_refused(w, world, rng.choice(world.fakes + [world.outside, world.box, u.path('work'), u.root]))
        elif op == 'discard sub':
            discard_refused(w, world, os.path.join(ws, rng.choice(['input', 'output', 'temp', 'lib', '.bead-meta', 'nothing', 'src'])))
        elif op == 'discard':
            if rng.random() < .3:
                discard_forced(w, world, rng.choice(world.fakes))
            discard(w, world, ws, case)
        else:
            remove_input(w, world, ws, op, case)


def fault_for(case, rng):
    if case['faults'] and rng.random() < .6:
        return rng.choice([1, 2, 3, 4, 5, 7, 9, 12, 17, 25]), rng.choice([OSError(errno.EIO, 'injected'), KeyboardInterrupt('injected')])


def observed(w, world, argv, cwd, fault=None):
    with audit.watch(fence=w.dir, fault=fault) as log:
        r = world.u.bead(*argv, cwd=cwd)
    w.count('modifications', len(log))
    # a command may tolerate the fault, but then it has to have its effect
    failed = any(e == 'FAULT' for e, p in log) and not r.ok
    if failed:
        w.count('faults')
    # every command makes sure that there is a directory for its configuration
    return r, [(e, p) for e, p in log if e != 'FAULT' and (e, p) != ('os.mkdir', world.u.config)], failed


def discard_refused(w, world, target):
    u, rng = world.u, w.rng
    before = snap.snapshot(u.root)
    explicit = rng.random() < .6 or not os.path.isdir(target) or any(is_within(target, ws) for ws in world.workspaces)
    if explicit:
        cwd = rng.choice([u.root, os.path.dirname(target)])
        argv = ['discard', rng.choice([target, os.path.relpath(target, cwd)])]
    else:
        cwd, argv = target, ['discard']
    r, log, _ = observed(w, world, argv, cwd)
    after = snap.snapshot(u.root)
    w.count('refused_discards')
    w.check(r.refused, 'discard of what is not a workspace is not refused', result=repr(r), tb=r.tb)
    w.check(before == after, 'refused discard changed something', result=repr(r), diff=snap.diff(before, after))
    w.check(not log, 'refused discard modified something', result=repr(r), log=log[:5])
    w.seen('state', ['refused', os.path.basename(target), explicit])


def discard_forced(w, world, target):
    if not os.path.isdir(target):
        return
    u = world.u
    before = snap.snapshot(u.root)
    r, log, _ = observed(w, world, ['discard', w.rng.choice(['-f', '--force']), target], u.root)
    after = snap.snapshot(u.root)
    w.count('forced')
    compare(w, world, 'forced discard', r, before, after, target, log, [target])
    w.check(r.ok and not os.path.lexists(target), 'forced discard did not remove the directory', result=repr(r), tb=r.tb)


def compare(w, world, op, r, before, after, target, log, allowed):
    b, a = without(before, world.u.root, target), without(after, world.u.root, target)
    w.check(a == b, 'a removal command altered something outside of its target', op=op, result=repr(r), tb=r.tb, diff=snap.diff(b, a))
    out = audit.outside(log, allowed)
    w.check(not out, 'a removal command modified something outside of its target', op=op, result=repr(r), log=out[:5])


def discard(w, world, ws, case):
    u, rng = world.u, w.rng
    if rng.random() < .5:
        # inputs may be links too
        loaded = [n for n in ws_inputs(ws) if os.path.isdir(os.path.join(ws, 'input', n))]
        if loaded:
            world.link_input(ws, rng.choice(loaded))
    nested = any(is_within(x, ws) and x != ws and is_valid_ws(x) for x in world.workspaces)
    places = ['.', 'lib', 'output', 'temp', 'input', 'output/d', 'lib/deep/er']
    loaded = [n for n in ws_inputs(ws) if os.path.isdir(os.path.join(ws, 'input', n)) and not os.path.islink(os.path.join(ws, 'input', n))]
    places += [os.path.join('input', n) for n in loaded]
    how = rng.choice(['cwd', 'sub', 'path', 'relative', 'force', 'with link'])
    if how == 'cwd':
        cwd, argv = ws, ['discard']
    elif how == 'sub':
        cwd, argv = os.path.join(ws, rng.choice(places)), ['discard']
    elif how == 'path':
        cwd, argv = rng.choice([u.root, world.outside, ws]), ['discard', ws]
    elif how == 'relative':
        cwd = rng.choice([u.root, u.path('work'), world.box])
        argv = ['discard', os.path.relpath(ws, cwd)]
    elif how == 'with link':
        # a path through links leads to the same workspace
        link = os.path.join(world.box, '..', 'way')
        if os.path.lexists(link):
            os.unlink(link)
        os.symlink(os.path.dirname(ws), link)
        cwd, argv = u.root, ['discard', os.path.join(link, os.path.basename(ws))]
    else:
        cwd, argv = u.root, ['discard', '-f', ws]
    fault = fault_for(case, rng)
    before = snap.snapshot(u.root)
    r, log, failed = observed(w, world, argv, cwd, fault)
    after = snap.snapshot(u.root)
    compare(w, world, 'discard', r, before, after, ws, log, [ws])
    if failed:
        r, log, _ = observed(w, world, ['discard', '--force', ws], u.root)
        again = snap.snapshot(u.root)
        compare(w, world, 'repeated discard', r, after, again, ws, log, [ws])
    w.count('discards')
    w.check(r.ok and not os.path.lexists(ws), 'the workspace is not discarded', result=repr(r), tb=r.tb, left=snap.diff({}, snap.snapshot(ws)) if os.path.lexists(ws) else None)
    w.seen('state', ['discard', how, failed, nested, sorted(world.links[ws])[:6]])
    w.sample(dict(op='discard', how=how, links=sorted(world.links[ws]), nested=nested, fault=bool(failed)))


def remove_input(w, world, ws, op, case):
    u, rng = world.u, w.rng
    rec = ws_inputs(ws)
    if not rec:
        return
    nick = rng.choice(sorted(rec))
    p = os.path.join(ws, 'input', nick)
    if op != 'unload all' and os.path.isdir(p) and rng.random() < .35:
        world.link_input(ws, nick)
    loaded = {n for n in rec if os.path.isdir(os.path.join(ws, 'input', n))}
    linked = os.path.islink(p)
    cwd = rng.choice([ws, os.path.join(ws, 'temp'), u.root])
    where = [] if cwd != u.root else ['-w', ws]
    bead = None
    if op == 'unload all':
        argv, nicks = ['input', 'unload', *where], loaded
    elif op == 'update':
        bead = rng.choice([b for b in world.beads if b.content_id != rec[nick][1]])
        argv, nicks = ['input', 'update', *where, '--', nick, bead.path], {nick}
    else:
        argv, nicks = ['input', op, *where, '--', nick], {nick}
    fault = fault_for(case, rng)
    before = snap.snapshot(u.root)
    r, log, failed = observed(w, world, argv, cwd, fault)
    after = snap.snapshot(u.root)
    check_input_removed(w, world, ws, op, r, failed, before, after, log, nicks, rec, bead)
    if failed:
        rec2 = ws_inputs(ws)
        if op != 'delete' or nick in rec2:
            r, log, _ = observed(w, world, argv, cwd)
            again = snap.snapshot(u.root)
            check_input_removed(w, world, ws, op, r, False, after, again, log, nicks, rec, bead)
    w.count({'unload': 'unloads', 'unload all': 'unloads', 'delete': 'deletes', 'update': 'updates'}[op])
    w.seen('state', [op, r.code, linked, nick in loaded, failed, sorted(how for where, how in world.links[ws] if where == 'input')])


def check_input_removed(w, world, ws, op, r, failed, before, after, log, nicks, rec, bead):
    top = os.path.join(ws, 'input')
    rel = os.path.relpath(ws, world.u.root)
    mine = [f'{rel}/input/{n}' for n in nicks]

    def others(s):
        # the record of inputs and the staging names in the input area belong to the input
        return {k: v for k, v in s.items() if not any(is_within(k, m) for m in mine)
                and not is_within(k, f'{rel}/.bead-meta/bead') and not k.startswith(f'{rel}/input/__')
                and not (failed and (k == f'{rel}/input' or k.startswith(f'{rel}/.bead-meta/bead.')))}
    b, a = others(before), others(after)
    w.check(a == b, 'removing an input altered something else', op=op, result=repr(r), tb=r.tb, failed=failed, nicks=sorted(nicks), diff=snap.diff(b, a))
    bad = [(e, p) for e, p in log if not (
        p == top or any(is_within(p, os.path.join(top, n)) for n in nicks) or p.startswith(os.path.join(top, '__')) or p.startswith(os.path.join(ws, '.bead-meta', 'bead')))]
    w.check(not bad, 'removing an input modified something else', op=op, result=repr(r), log=bad[:5])
    if failed:
        return
    w.check(r.ok, 'an input could not be removed', op=op, result=repr(r), tb=r.tb)
    now = ws_inputs(ws)
    left = {n for n in os.listdir(top)}
    if bead:
        n, = nicks
        d = os.path.join(top, n)
        w.check(not os.path.islink(d) and now[n][1] == bead.content_id and snap.tree_files(d) == bead.data,
                'updated input has something else than the data of the bead', nick=n, link=os.path.islink(d), diff=snap.diff_files(bead.data, snap.tree_files(d)))
    else:
        w.check(not (left & set(nicks)), 'data of the input is not removed', op=op, left=sorted(left), nicks=sorted(nicks))
        expected = set(rec) - (set(nicks) if op == 'delete' else set())
        w.check(set(now) == expected, 'wrong inputs are recorded', op=op, now=sorted(now), expected=sorted(expected))
    w.check(not [n for n in left if n.startswith('__')], 'remains of input data', left=sorted(left), op=op)

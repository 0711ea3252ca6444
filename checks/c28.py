import json
import os

from harness import gen, snap
from harness.cli import User, zips
from harness.world import is_valid_ws, put_bead, ws_inputs, ws_meta

PROPERTY = 'C28'
LEVEL = 'exploration'
RULE = ('one case = a random tree of directories with workspaces nested in the areas of each other, damaged workspaces (an area or the metadata missing, a file, a dangling link, '
        'unreadable, case changed), links to directories inside and outside of them; from random current directories (also through links and relative explicit paths) '
        'every workspace command runs, and the workspace it reports, packs, changes or deletes is compared with the one calculated from the real path; '
        'everything else must stay unchanged; non-trivial = distinct (command, way of naming, depth below, levels of nesting, damaged ones passed by, outcome) tuples')
REQUIRED = {'commands_checked': 3500, 'implicit': 2000, 'explicit': 900, 'outside': 400, 'nested': 500, 'passed_damaged': 250, 'through_link': 500, 'deep': 500,
            'saved': 250, 'changed': 500, 'discarded': 40, 'status': 600, 'from_area': 600, '#where': 300, 'unreadable': 30, 'explicit_subdirectory': 150}
DAMAGE = ['no input', 'no output', 'no temp', 'no meta', 'file input', 'file output', 'file temp', 'directory meta', 'dangling meta', 'dangling temp', 'case', 'unreadable', 'empty']
AREAS = ['input', 'output', 'temp', '.bead-meta', '.', 'src', 'src/deep/er']


def plan(tier, rng):
    n = 220 if tier == 'quick' else 2500
    return [dict(size=[4, 7, 10][i % 3], steps=46) for i in range(n)]


class World:
    def __init__(self, w, case):
        self.w, self.rng = w, w.rng
        rng = w.rng
        self.u = u = User(w)
        self.box = u.add_box('box')
        self.top = u.mkdir('top')
        self.beads = [put_bead(u.mkdir('beads'), rng, f'in{i}', data={'d/x': b'1', 'y': b'2'}) for i in range(3)]
        self.plain = [self.top]         # directories not known to be workspaces
        self.workspaces = []
        self.damaged = {}
        self.links = []
        self.deep = []
        self.kinds = {}
        for i in range(case['size']):
            self.grow(i)

    def places(self):
        return [d for d in self.plain if os.access(d, os.W_OK)]

    def grow(self, i):
        rng, u = self.rng, self.u
        parent = rng.choice(self.places())
        # deep chains are more interesting
        if rng.random() < .5:
            parent = max(rng.sample(self.places(), min(3, len(self.places()))), key=lambda p: p.count('/'))
        if is_valid_ws(parent):
            raise AssertionError(parent)
        what = rng.choice(['ws', 'ws', 'ws', 'damaged', 'damaged', 'plain', 'link'])
        p = os.path.join(parent, rng.choice(['w{}', 'ün {}', '.w{}', 'input{}', 'TEMP{}', '[w]{}']).format(i))
        if what == 'plain':
            os.makedirs(p)
            self.plain.append(p)
            return
        if what == 'link' and self.workspaces:
            t = rng.choice(self.workspaces + self.plain)
            sub = rng.choice([d for d, _, _ in os.walk(t)])
            # no cycles: they can not be saved
            if inside(os.path.realpath(parent), os.path.realpath(sub)) or any(os.path.islink(os.path.join(d, n)) for d, ds, fs in os.walk(sub) for n in ds + fs):
                return
            os.symlink(rng.choice([sub, os.path.relpath(sub, os.path.realpath(parent))]), p)
            self.links.append(p)
            return
        u.must('new', p)
        self.kinds[p] = ws_meta(p)['kind']
        gen.write_tree(p, {'src/deep/er/s': p.encode('utf-8'), 'output/o': b'o', 'temp/t/t/t': b't'})
        if rng.random() < .06:
            gen.write_tree(p, {rng.choice(['src', 'output', 'temp', 'very']) + '/d' * rng.choice([15, 20, 30, 40, 60]) + '/f': b'd'})
            self.deep += [d for d, ds, _ in os.walk(p) if not ds and d.endswith('/d' * 15)]
        for b in rng.sample(self.beads, rng.randrange(3)):
            u.must('input', 'add', '--workspace', p, b.name, b.path)
        if what == 'damaged':
            self.damage(p)
        else:
            self.workspaces.append(p)
        for area in ('output', 'temp', 'src', 'temp/t/t', 'output', 'input'):
            d = os.path.join(p, area)
            if os.path.isdir(d) and not os.path.islink(d) and rng.random() < .8:
                if area == 'input':
                    os.chmod(d, 0o755)
                self.plain.append(d)

    def damage(self, p):
        how = self.rng.choice(DAMAGE)
        self.damaged[p] = how
        kind, _, what = how.partition(' ')
        target = os.path.join(p, '.bead-meta/bead' if what == 'meta' else what)
        if kind == 'case':
            os.rename(os.path.join(p, 'output'), os.path.join(p, 'Output'))
        elif kind == 'unreadable':
            os.chmod(os.path.join(p, '.bead-meta'), 0)
            self.w.count('unreadable')
        elif kind == 'empty':
            for a in ('input', 'output', 'temp', '.bead-meta'):
                os.rename(os.path.join(p, a), os.path.join(p, a + '.bak'))
        else:
            os.rename(target, target + '.bak')
            if kind == 'file':
                with open(target, 'w') as f:
                    f.write('not a directory')
            elif kind == 'directory':
                os.mkdir(target)
            elif kind == 'dangling':
                os.symlink('nowhere', target)

    def savable(self, ws):
        '''can all files be read'''
        for n in os.listdir(ws):
            if n not in gen.TOP_RESERVED or n == 'output':
                for d, ds, fs in os.walk(os.path.join(ws, n), followlinks=True):
                    if any(not os.path.exists(os.path.join(d, x)) or not os.access(os.path.join(d, x), os.R_OK) for x in ds + fs):
                        return False
        return True

    def innermost(self, cwd):
        '''(workspace, number of workspaces around, damaged ones passed by)'''
        p = os.path.realpath(cwd)
        valid = []
        passed = 0
        while True:
            if is_valid_ws(p):
                valid.append(p)
            elif not valid and p in self.damaged:
                passed += 1
            if p == '/':
                break
            p = os.path.dirname(p)
        return (valid[0] if valid else None), len(valid), passed

    def directories(self):
        out = []
        for d, ds, _ in os.walk(self.top, followlinks=False):
            out.append(d)
        return out

    def cwd(self):
        rng = self.rng
        r = rng.random()
        links = [l for l in self.links if os.path.isdir(l)]
        if links and r < .25:
            l = rng.choice(links)
            subs = [d for d, _, _ in os.walk(l)]
            return rng.choice(subs)
        if self.deep and r < .33:
            p = rng.choice(self.deep)
            if os.path.isdir(p):
                return p
        if self.workspaces and r < .75:
            ws = rng.choice(self.workspaces)
            subs = [d for a in AREAS for d in [os.path.normpath(os.path.join(ws, a))] if os.path.isdir(d)]
            return rng.choice(subs)
        if r < .8:
            return self.u.root
        return rng.choice(self.directories())


def meta_of(ws):
    return json.dumps(ws_meta(ws), sort_keys=True)


def run_case(case, w):
    x = World(w, case)
    for _ in range(case['steps']):
        one(w, w.rng, x)
    for p in x.damaged:
        if x.damaged[p] == 'unreadable' and os.path.lexists(p):
            os.chmod(os.path.join(p, '.bead-meta'), 0o755)


def inside(p, top):
    return p == top or p.startswith(top + '/')


def one(w, rng, x):
    u = x.u
    cwd = x.cwd()
    if not os.path.isdir(cwd) or not os.access(cwd, os.X_OK | os.R_OK):
        return
    where = 'implicit'
    around, levels, passed = x.innermost(cwd)
    expected = around
    named = []
    if rng.random() < .33:
        where = 'explicit'
        target = rng.choice(x.workspaces or [x.top])
        r = rng.random()
        if r < .15:
            target = rng.choice(x.plain + list(x.damaged))
        elif r < .3:
            target = os.path.join(target, rng.choice(['output', 'temp', 'input', 'src', '.bead-meta']))
        elif r < .45 and x.links:
            target = rng.choice(x.links)
        real = os.path.realpath(target)
        expected = real if is_valid_ws(real) else None
        if expected is None and x.innermost(real)[0]:
            w.count('explicit_subdirectory')
        shown = rng.choice([target, os.path.relpath(real, os.path.realpath(cwd)), target + '/', os.path.join(target, 'src', '..') if os.path.isdir(os.path.join(target, 'src')) and not os.path.islink(os.path.join(target, 'src')) else target])
        named = [f'--workspace={shown}'] if rng.random() < .5 else ['-w', shown] if not shown.startswith('-') else [f'-w{shown}']
    command = rng.choice(['status', 'status', 'save', 'save', 'add', 'add', 'load', 'unload', 'delete', 'update', 'load all', 'unload all', 'update all', 'discard'])
    if command == 'discard' and rng.random() < .6:
        command = 'status'
    before = snap.snapshot(u.root, mtimes=False)
    archives = set(zips(x.box))
    bead = rng.choice(x.beads)
    savable = command != 'save' or expected is None or x.savable(expected)
    if command == 'discard' and expected and any(inside(p, expected) and how == 'unreadable' for p, how in x.damaged.items()):
        return
    if command == 'discard' and expected and not os.access(os.path.dirname(expected), os.W_OK):
        return
    inputs = ws_inputs(expected) if expected else {}
    nick = rng.choice(sorted(inputs) or ['in0']) if command != 'add' else f'n{rng.randrange(30)}'
    loaded = {n for n in inputs if os.path.isdir(os.path.join(expected, 'input', n))}
    argv = {
        'status': ['status', '-v', *named], 'save': ['save', 'box', *named], 'add': ['input', 'add', *named, nick, bead.path],
        'load': ['input', 'load', *named, nick], 'unload': ['input', 'unload', *named, nick], 'delete': ['input', 'delete', *named, nick],
        'update': ['input', 'update', *named, nick, bead.path], 'load all': ['input', 'load', *named], 'unload all': ['input', 'unload', *named],
        'update all': ['input', 'update', *named], 'discard': ['discard', *(['--', shown] if named else [])],
    }[command]
    r = u.bead(*argv, cwd=cwd)
    info = dict(argv=argv, cwd=os.path.relpath(cwd, u.root), expected=expected and os.path.relpath(expected, u.root), result=repr(r), tb=r.tb)
    w.check(r.crash is None, 'command crashed', **info)
    after = snap.snapshot(u.root, mtimes=False)
    # what may change
    added = set(zips(x.box)) - archives
    changed = {k for k in before.keys() | after.keys() if before.get(k) != after.get(k)}
    changed -= {k for k in changed if inside(k, 'home') or k in ('box', '.')}
    w.count('commands_checked')
    w.count(where)
    if expected is None:
        w.count('outside')
        w.check(not changed and not added, 'a command without a workspace changed something', changed=sorted(changed)[:6], **info)
        if command == 'status':
            w.check('Bead Name' not in r.out and 'nvalid workspace' in r.text, 'status of what is not a workspace', **info)
        else:
            w.check(r.refused and 'not a valid workspace' in r.err, 'command outside of workspaces is not refused', **info)
    else:
        rel = os.path.relpath(expected, u.root)
        foreign = [k for k in changed if not inside(k, rel) and not inside(k, 'box')]
        if command == 'discard':
            foreign = [k for k in foreign if k != os.path.dirname(rel)]
        w.check(not foreign, 'a command changed something outside of its workspace', changed=sorted(foreign)[:6], **info)
        if command != 'discard':
            wrong = [k for k in changed if inside(k, rel) and os.path.relpath(k, rel).split('/')[0] not in ('.', 'input', '.bead-meta')]
            wrong += [k for k in changed for ws in x.workspaces if ws != expected and inside(ws, expected) and inside(os.path.join(u.root, k), ws)]
            w.check(not wrong, 'a command changed a workspace within its workspace', changed=sorted(wrong)[:6], **info)
        kind = x.kinds.get(expected)
        if command == 'status':
            w.check(f'Bead Name: {os.path.basename(expected)}\n' in r.out and f'Bead kind: {kind}\n' in r.out and not changed, 'status of another workspace', kind=kind, **info)
            w.count('status')
        elif not savable:
            w.check(r.refused and not changed, 'a workspace was saved, that can not be', **info)
            w.count('not_savable')
        elif command == 'save':
            w.check(r.ok and len(added) == 1, 'not saved', added=sorted(added), **info)
            from harness.beadfile import BeadFile
            b = BeadFile(os.path.join(x.box, *added))
            w.check(b.kind == kind and b.name == os.path.basename(expected) and b.code.get('src/deep/er/s') == expected.encode(), 'another workspace was saved', kind=b.kind, expected_kind=kind, **info)
            w.count('saved')
            os.unlink(b.path)
        elif command == 'discard':
            w.check(r.ok and not os.path.lexists(expected), 'not discarded', **info)
            w.count('discarded')
            x.workspaces = [p for p in x.workspaces if not inside(p, expected)]
            x.plain = [p for p in x.plain if not inside(p, expected)]
            x.damaged = {p: v for p, v in x.damaged.items() if not inside(p, expected)}
            x.links = [p for p in x.links if not inside(p, expected)]
        else:
            now = ws_inputs(expected)
            have = {n for n in now if os.path.isdir(os.path.join(expected, 'input', n))}
            if command == 'add':
                ok = r.ok and now.keys() - inputs.keys() == {nick} - inputs.keys() and now[nick][1] == bead.content_id
            elif command in ('unload', 'unload all'):
                ok = now == inputs and nick not in have and (command == 'unload' or not have)
            elif command == 'delete':
                ok = now.keys() == inputs.keys() - {nick}
            elif command == 'update' and nick in inputs:
                ok = r.ok and now[nick][1] == bead.content_id
            else:
                ok = now == inputs or command == 'update all'
            w.check(ok, 'command did not act on its workspace', inputs_before=sorted(inputs), inputs_after=sorted(now), loaded=sorted(have), **info)
            if changed:
                w.count('changed')
        if levels > 1 and where == 'implicit':
            w.count('nested')
        if passed and where == 'implicit':
            w.count('passed_damaged')
        if os.path.realpath(cwd) != cwd:
            w.count('through_link')
        if where == 'implicit' and os.path.realpath(cwd) != expected:
            w.count('from_area')
            if os.path.relpath(os.path.realpath(cwd), expected).count('/') > 1:
                w.count('deep')
    w.seen('where', [command, where, expected is None, os.path.relpath(os.path.realpath(cwd), around).split('/')[0] if around else None, min(levels, 3), min(passed, 2), r.code])
    w.sample(dict(workspaces=len(x.workspaces), damaged=len(x.damaged), links=len(x.links), levels=levels))
    if x.w.rng.random() < .1 or not x.workspaces:
        x.grow(1000 + w.rng.randrange(10 ** 6))

import os
import re
import shutil
import unicodedata

from harness import audit, beadfile, faults, gen, snap
from harness.cli import User, invoke, zips
from harness.world import box_records, input_tree, is_valid_ws, put_bead, ws_inputs, ws_meta, ws_trees

PROPERTY = 'C24'
LEVEL = 'exploration'
RULE = ('(a) refusal cases: commands that must be refused (every reason for refusal, in every command it applies to, in random combinations of valid arguments, '
        'from inside and outside of workspaces) in a random world; the whole world is compared (names, bytes, permissions), every modification attempt is monitored, an internal error is a violation; '
        '(b) name cases: random hostile names are offered as workspace and input names, an accepted name has to work in all commands; '
        'non-trivial = distinct (reason, command, options, place) and distinct (accepted or refused, character classes of the name, length class)')
REQUIRED = {'refusals': 4000, '#reason': 95, '#state': 500, 'accepted_names': 250, 'refused_names': 30, 'name_commands': 3000, 'accepted_nicks': 200, 'refused_nicks': 10, 'without_boxes': 300}

REPORTED = re.compile(r'error|warning|invalid|unknown|not |no |usage|too many|damaged|failed|skipping', re.I)


def plan(tier, rng):
    big = tier != 'quick'
    return ([dict(what='refusals', rounds=2 if not big else 5) for i in range(24 if not big else 600)]
            + [dict(what='names', n=14 if not big else 40) for i in range(32 if not big else 800)])


def run_case(case, w):
    if case['what'] == 'refusals':
        refusals(case, w)
    else:
        names(case, w)


# ---- (a)

class World:
    def __init__(self, w):
        self.w, self.rng = w, w.rng
        rng = w.rng
        self.u = u = User(w)
        self.boxes = {n: u.add_box(n) for n in (['one', 'two'])}
        self.names = rng.sample([n for n in gen.BEAD_NAMES if '__' not in n and not n.startswith('-')], 3)
        self.kinds = ['kind-1', 'kind-2']
        self.beads = []
        for i in range(6):
            self.beads.append(put_bead(rng.choice(list(self.boxes.values())), rng, self.names[i % 3], kind=self.kinds[i % 2], filename=None,
                                       data=gen.gen_tree(rng, n=rng.choice([0, 1, 3]))))
        # damaged beads: in a box and elsewhere
        self.files = u.mkdir('files')
        self.damaged = []
        self.damaged_in_box = put_bead(self.boxes['one'], rng, 'damaged-bead', kind='damaged-kind')
        self.damage(self.damaged_in_box.path)
        self.damaged.append(self.damaged_in_box.path)
        bf = put_bead(self.files, rng, 'elsewhere')
        self.damage(bf.path)
        self.damaged.append(bf.path)
        self.not_beads = []
        for n, b in (('empty.zip', b''), ('text.zip', b'no archive'), ('text', b'text')):
            p = os.path.join(self.files, n)
            with open(p, 'wb') as f:
                f.write(b)
            self.not_beads.append(p)
        import zipfile
        p = os.path.join(self.files, 'other.zip')
        with zipfile.ZipFile(p, 'w') as z:
            z.writestr('data/x', 'x')
        self.not_beads.append(p)
        u.mkdir('work')
        self.ws = u.path('work', 'ws')
        u.must('new', self.ws)
        gen.write_tree(self.ws, {'src': b's', 'lib/x.py': b'x', 'output/o': b'o', 'temp/t': b't'})
        for nick, b in zip(['a', 'b b', 'ü'], self.beads):
            u.must('input', 'add', '--', nick, b.path, cwd=self.ws)
        u.must('input', 'unload', 'b b', cwd=self.ws)
        # an input, whose bead is only available as a damaged one
        import json
        mp = os.path.join(self.ws, '.bead-meta', 'bead')
        m = ws_meta(self.ws)
        m['inputs']['dam'] = dict(kind='damaged-kind', content_id=self.damaged_in_box.content_id, freeze_time=self.damaged_in_box.freeze_time_str)
        m['inputs']['gone'] = dict(kind='no such kind', content_id='0' * 128, freeze_time='20200101T000000000000+0000')
        with open(mp, 'w') as f:
            json.dump(m, f)
        self.empty_ws = u.path('work', 'empty')
        u.must('new', self.empty_ws)
        if rng.random() < .5:
            u.must('box', 'index', '--all')
        self.plain = u.mkdir('plain', 'directory')
        with open(os.path.join(self.plain, 'file'), 'w') as f:
            f.write('x')
        self.broken_ws = u.path('work', 'broken')
        u.must('new', self.broken_ws)
        os.rename(os.path.join(self.broken_ws, rng.choice(['output', 'temp', '.bead-meta'])), os.path.join(self.broken_ws, 'moved'))
        os.symlink('nowhere', u.path('dangling'))
        self.unsavable = []
        for i, area in enumerate(['.', 'output', 'src', 'output/deep/er', 'lib/deep']):
            p = u.path('work', f'unsavable{i}')
            u.must('new', p)
            gen.write_tree(p, {'aaa': b's', 'src/x.py': b'x', 'output/o': b'o', 'zzz': b'z'})
            d = os.path.join(p, area)
            os.makedirs(d, exist_ok=True)
            odd = os.path.join(d, rng.choice(['odd', 'a', 'zz']))
            how = rng.choice(['dangling', 'fifo', 'loop', 'self', 'undecodable', 'socket', 'unreadable', 'unreadable directory'])
            if how == 'dangling':
                os.symlink('nowhere', odd)
            elif how == 'fifo':
                os.mkfifo(odd)
            elif how == 'loop':
                os.symlink('.', odd)
            elif how == 'self':
                os.symlink(os.path.basename(odd), odd)
            elif how == 'unreadable':
                with open(odd, 'w') as f:
                    f.write('x')
                os.chmod(odd, 0)
            elif how == 'unreadable directory':
                os.mkdir(odd, 0)
            elif how == 'socket':
                import socket
                here = os.getcwd()
                os.chdir(d)
                with socket.socket(socket.AF_UNIX) as so:
                    so.bind(os.path.basename(odd))
                os.chdir(here)
            else:
                with open(os.fsencode(odd) + b'\xff\xe9', 'wb') as f:
                    f.write(b'x')
            self.unsavable.append(p)

    def damage(self, p):
        import zipfile
        with zipfile.ZipFile(p) as z:
            ms = [(n, z.read(n)) for n in z.namelist()]
        with zipfile.ZipFile(p, 'w') as z:
            for n, b in ms:
                z.writestr(beadfile.raw_info(n, zipfile.ZIP_STORED), b)
            z.writestr(beadfile.raw_info('data/tampered', zipfile.ZIP_STORED), b'x')


BAD_NAMES = ['a__b', '__', 'a:b', 'a\\b', ':', 'x' * 256, 'ü' * 120, 'x' * 240, '___']
BAD_NICKS = ['', '.', '..', 'a/b', '/', '/abs', '../up', 'a/', 'a__b', '__loading-x', 'x' * 256, 'ü' * 130, './a', 'a/../b']
BAD_TIMES = ['never', '2020-13-01', '20200230', '1.', '-1', '2020-01-01T25:00', '1x', '1 m', '2020-01-01T00:00:00+99:00', 'now', '1h1', '99999999999999w']


def situations(world):
    '''[(reason, command, places, argv)] - all have to be refused'''
    rng, u = world.rng, world.u
    ws, empty = world.ws, world.empty_ws
    bead = rng.choice(world.beads)
    name = rng.choice(world.names)
    IN = 'in'       # in a workspace
    OUT = 'out'     # outside of any workspace
    ANY = 'any'
    s = []
    add = lambda reason, place, *argv: s.append((reason, place, [str(a) for a in argv]))
    bad_name, bad_nick, bad_time = rng.choice(BAD_NAMES), rng.choice(BAD_NICKS), rng.choice(BAD_TIMES)
    no_bead = rng.choice(['no such bead', 'x' * 300, 'no/such/bead', name + 'x', name + '_', name.swapcase() + '?', '', '*', '%', name[:-1] + '?', '/nonexistent/x.zip', bead.path + 'x'])
    not_bead = rng.choice(world.not_beads)
    damaged = rng.choice(world.damaged)
    no_nick = rng.choice(['c', 'A', 'a ', ' a', '', '*', '..', '../..', '.', '/', 'b', 'ü/', './a', 'input/a', 'x' * 300])
    no_box = rng.choice(['three', 'ONE', '', 'one ', '*', world.boxes['one'], 'on'])
    no_time = rng.choice(['19800101', '1900-01-01', '0001-01-01'])
    # new
    for target in (ws, world.plain, os.path.join(ws, 'src'), world.boxes['one'], empty, world.broken_ws):
        add('existing target', ANY, 'new', '--', target)
    add('existing target .', ANY, 'new', rng.choice(['.', '', '..', './']))
    add('malformed name', ANY, 'new', '--', u.path(bad_name))
    add('malformed relative name', ANY, 'new', '--', bad_name)
    add('root', ANY, 'new', '/')
    add('file as parent', ANY, 'new', os.path.join(world.plain, 'file', 'x'))
    add('no name', ANY, 'new')
    add('too many names', ANY, 'new', u.path('x1'), u.path('x2'))
    # edit
    for opts in ([], ['--review'], ['-t', '1h']):
        add('unknown bead', ANY, 'edit', *opts, '--', no_bead, u.path('new1'))
        add('unknown bead', ANY, 'edit', *opts, '--', no_bead)
        add('not a bead', ANY, 'edit', *opts, '--', not_bead, u.path('new1'))
        add('damaged', ANY, 'edit', *opts, '--', damaged, u.path('new1'))
        add('damaged, by name', ANY, 'edit', '--', 'damaged-bead', u.path('new1'))
        add('damaged, no name', ANY, 'edit', '--', damaged)
        for target in (ws, world.plain, os.path.join(world.plain, 'file'), empty, world.broken_ws):
            add('existing target', ANY, 'edit', *opts, '--', rng.choice([bead.path, bead.name]), target)
        add('malformed target', ANY, 'edit', *opts, '--', bead.path, u.path(rng.choice(['a__b', 'x' * 256, 'x' * 240])))
        add('root target', ANY, 'edit', *opts, '--', bead.path, '/')
        add('file as parent', ANY, 'edit', *opts, '--', bead.path, os.path.join(world.plain, 'file', 'x'))
        add('directory as bead', ANY, 'edit', *opts, '--', world.plain, u.path('new1'))
    add('no version that old', ANY, 'edit', '-t', no_time, '--', name, u.path('new1'))
    add('wrong time', ANY, 'edit', '-t', bad_time, '--', name, u.path('new1'))
    add('no arguments', ANY, 'edit')
    # save
    add('unknown box', IN, 'save', '--', no_box)
    add('unknown box', ANY, 'save', '-w', ws, '--', no_box)
    add('ambiguous box', IN, 'save')
    add('ambiguous box', ANY, 'save', '-w', ws)
    add('not in a workspace', OUT, 'save', 'one')
    add('not a workspace', ANY, 'save', '-w', rng.choice([world.plain, world.broken_ws, u.path('nothing'), os.path.join(ws, 'output'), world.boxes['one']]), 'one')
    for p in world.unsavable:
        add('content can not be archived', ANY, 'save', '-w', p, 'one')
    # input
    for opts in ([], ['-t', '1m']):
        add('malformed nick', IN, 'input', 'add', *opts, '--', bad_nick, bead.path)
        add('malformed nick', IN, 'input', 'add', *opts, '--', bad_nick)
        add('unknown bead', IN, 'input', 'add', *opts, '--', 'new', no_bead)
        add('unknown bead for a known nick', IN, 'input', 'add', *opts, '--', 'a', no_bead)
        add('unknown bead', IN, 'input', 'add', *opts, '--', 'no such bead')
        add('not a bead', IN, 'input', 'add', *opts, '--', rng.choice(['new', 'a', 'b b']), not_bead)
        add('damaged', IN, 'input', 'add', *opts, '--', rng.choice(['new', 'a', 'b b']), rng.choice([damaged, 'damaged-bead']))
        add('unknown nick', IN, 'input', 'update', *opts, '--', no_nick)
        add('unknown nick', IN, 'input', 'update', *opts, '--', no_nick, bead.path)
        add('unknown bead', IN, 'input', 'update', *opts, '--', 'a', no_bead)
        add('not a bead', IN, 'input', 'update', *opts, '--', rng.choice(['a', 'b b']), not_bead)
        add('damaged', IN, 'input', 'update', *opts, '--', rng.choice(['a', 'b b', 'dam', 'gone']), rng.choice([damaged, 'damaged-bead']))
        add('nothing to update to', IN, 'input', 'update', *opts, '--', 'gone')
    add('damaged', IN, 'input', 'update', '--', 'dam')
    add('no version that old', IN, 'input', 'add', '-t', no_time, '--', 'new', name)
    add('no version that old', IN, 'input', 'update', '-t', no_time, '--', 'a')
    add('no version that old', IN, 'input', 'update', '-t', no_time, '--', 'a', name)
    add('no earlier version', IN, 'input', 'update', '--prev', '--', 'gone')
    add('no later version', IN, 'input', 'update', '--next', '--', 'dam')
    for cmd in ('add', 'update'):
        add('wrong time', IN, 'input', cmd, '-t', bad_time, '--', 'a', name)
    add('wrong time for all', IN, 'input', 'update', '-t', bad_time)
    add('offset and time', IN, 'input', 'update', rng.choice(['--next', '-P']), '-t', '1h', '--', 'a')
    add('offset and bead', IN, 'input', 'update', rng.choice(['--next', '-P']), '--', 'a', name)
    add('offset for all', IN, 'input', 'update', rng.choice(['--next', '--prev']))
    for cmd in ('load', 'unload', 'delete', 'rm'):
        add('unknown nick', IN, 'input', cmd, '--', no_nick)
        add('too many', IN, 'input', cmd, '--', 'a', 'b b')
    add('damaged', IN, 'input', 'load', '--', 'dam')
    add('missing bead', IN, 'input', 'load', '--', 'gone')
    add('not loaded', IN, 'input', 'unload', '--', rng.choice(['b b', 'dam', 'gone']))
    add('no nick', IN, 'input', rng.choice(['add', 'delete', 'rm']))
    bad_ws = rng.choice([world.plain, world.broken_ws, u.path('nothing'), os.path.join(ws, 'input'), os.path.join(ws, 'lib'), u.path('dangling'), '/', os.path.join(ws, 'src'), os.path.join(ws, 'src', 'x'), '', '/dev/null'])
    for argv in (['input', 'add', '--', 'new', bead.path], ['input', 'load'], ['input', 'load', '--', 'a'], ['input', 'unload'], ['input', 'unload', 'a'], ['input', 'delete', '--', 'a'],
                 ['input', 'rm', '--', 'a'], ['input', 'update'], ['input', 'update', '--', 'a'], ['input', 'update', '--', 'a', bead.path], ['status'], ['save', 'one'], ['discard']):
        add('outside of a workspace', OUT, *argv)
        if argv[0] != 'discard':
            where = argv.index('--') if '--' in argv else len(argv)
            add('not a workspace', OUT, *argv[:where], '-w', bad_ws, *argv[where:])
    add('not a workspace', OUT, 'discard', bad_ws)
    add('nuke outside', OUT, 'nuke')
    add('force on nothing', ANY, 'discard', '-f', rng.choice([u.path('nothing'), os.path.join(world.plain, 'file'), u.path('dangling')]))
    # box
    add('existing box name', ANY, 'box', 'add', 'one', world.plain)
    add('existing box place', ANY, 'box', 'add', 'three', rng.choice([world.boxes['one'], world.boxes['one'] + '/', os.path.join(world.boxes['two'], '..', 'one')]))
    add('no directory', ANY, 'box', 'add', 'three', rng.choice([u.path('nothing'), os.path.join(world.plain, 'file'), u.path('dangling'), os.path.join(world.plain, 'file', 'x'), 'x' * 300]))
    add('unknown box', ANY, 'box', 'forget', '--', no_box)
    add('no box name', ANY, 'box', rng.choice(['forget', 'add']))
    for cmd in ('index', 'reindex'):
        if no_box:
            add('unknown box', ANY, 'box', cmd, '--box', no_box)
        add('no directory', ANY, 'box', cmd, '--dir', rng.choice([u.path('nothing'), os.path.join(world.plain, 'file'), 'x' * 300]))
        add('ambiguous', ANY, 'box', cmd)
        add('contradiction', ANY, 'box', cmd, '--all', '--box', 'one')
    # web
    add('unknown web command', ANY, 'web', rng.choice(['colour', 'Save', '', '--', 'one', '-x']))
    add('incomplete web command', ANY, 'web', 'color', rng.choice(['save', 'png', 'svg', 'dot', '/', 'load']))
    add('incomplete filter', ANY, 'web', '/', 'a', '..')
    add('no web file', ANY, 'web', 'load', rng.choice([u.path('nothing.web'), world.plain, os.path.join(world.plain, 'file'), not_bead, bead.path]))
    add('no place for web file', ANY, 'web', rng.choice(['save', 'dot', 'svg', 'png']), rng.choice([world.plain, os.path.join(world.plain, 'nothing', 'x'), os.path.join(world.plain, 'file', 'x')]))
    # unknown
    add('unknown command', ANY, rng.choice(['sav', 'New', 'input2', '', '-x', '--force', 'bead']))
    add('unknown sub command', ANY, rng.choice(['input', 'box']), rng.choice(['ad', 'remove', '', '--all']))
    add('unknown option', ANY, rng.choice(['new', 'edit', 'save', 'status', 'discard']), '--no-such-option', 'x')
    add('incomplete command', ANY, *rng.choice([[], ['input'], ['box']]))
    return s


def refusals(case, w):
    rng = w.rng
    world = World(w)
    u = world.u
    for _ in range(case['rounds']):
        todo = situations(world)
        rng.shuffle(todo)
        before = snap.snapshot(u.root)
        for reason, place, argv in todo:
            inside = [world.ws, os.path.join(world.ws, 'lib'), os.path.join(world.ws, 'output'), os.path.join(world.ws, 'input'), os.path.join(world.ws, 'input', 'a')]
            outside = [u.root, world.plain, world.boxes['one'], u.path('work'), world.broken_ws]
            cwd = rng.choice({'in': inside, 'out': outside, 'any': inside + outside}[place])
            with audit.watch(fence=w.dir) as log:
                r = u.bead(*argv, cwd=cwd)
            w.count('refusals')
            info = dict(reason=reason, cwd=os.path.relpath(cwd, u.root), result=repr(r))
            w.check(r.crash is None, 'a command to be refused ended with an internal error', tb=(r.tb or '')[-1500:], **info)
            w.check(bool(REPORTED.search(r.text)), 'the problem is not reported', **info)
            after = snap.snapshot(u.root)
            w.check(before == after, 'a refused command changed something', diff=snap.diff(before, after), **info)
            blocked = [p for e, p in log if e == 'BLOCKED']
            w.check(not blocked, 'a refused command tried to change something outside of the world', log=blocked[:3], **info)
            if after != before:
                return
            w.seen('reason', [reason, argv[:2] if argv and argv[0] in ('input', 'box', 'web') else argv[:1]])
            w.seen('state', [reason, argv[:2], [a for a in argv if a.startswith('-') and len(a) > 1], os.path.relpath(cwd, u.root), len(argv)])
    without_boxes(w, world)
    w.sample(dict(what='refusals', situations=len(todo), reasons=len({(r, tuple(a[:2])) for r, _, a in todo})))
    # the world is functional: nothing was refused because of a broken environment
    for argv in (['input', 'load', '--', 'b b'], ['input', 'unload', 'a'], ['save', 'one'], ['status']):
        u.must(*argv, cwd=world.ws)
    b = rng.choice(world.beads)
    u.must('edit', '--', b.path, u.path('new1'))
    u.must('input', 'add', '--', 'new', b.name, cwd=world.ws)
    w.check('new' in ws_inputs(world.ws) and is_valid_ws(u.path('new1')), 'a valid command has no effect')


def without_boxes(w, world):
    '''refusals for a user, who has not defined any box, yet'''
    rng, u = world.rng, world.u
    home = u.mkdir('new home')
    # every command makes this first
    os.makedirs(os.path.join(home, '.config', 'bead'))
    no_ws = rng.choice([world.plain, world.broken_ws, u.path('nothing'), os.path.join(world.ws, 'output'), world.boxes['one']])
    bead = rng.choice(world.beads)
    inside = [world.ws, os.path.join(world.ws, 'lib'), os.path.join(world.ws, 'output')]
    outside = [u.root, world.plain, world.boxes['one'], home]
    todo = [('not in a workspace', outside, ['save']), ('not in a workspace', outside, ['save', 'one']), ('not a workspace', inside + outside, ['save', '-w', no_ws]),
            ('not a workspace', inside + outside, ['save', '-w', no_ws, 'one']), ('unknown box', inside, ['save', 'one']),
            ('unknown bead', inside + outside, ['edit', '--', bead.name]), ('unknown bead', inside, ['input', 'add', '--', 'new', bead.name]),
            ('unknown bead', inside, ['input', 'update', '--', 'a', bead.name]), ('nothing to update to', inside, ['input', 'update', '--', 'a']),
            ('missing bead', inside, ['input', 'load', '--', 'b b']), ('unknown box', inside + outside, ['box', 'forget', 'one']),
            ('no boxes', inside + outside, ['box', rng.choice(['index', 'reindex'])]), ('unknown box', inside + outside, ['box', 'index', '--box', 'one']),
            ('existing box place', inside + outside, ['box', 'add', 'x', u.path('nothing')])]
    rng.shuffle(todo)
    before = snap.snapshot(u.root)
    for reason, places, argv in todo:
        cwd = rng.choice(places)
        with audit.watch(fence=w.dir) as log:
            r = invoke(argv, cwd, home)
        w.count('refusals')
        w.count('without_boxes')
        info = dict(reason=reason, cwd=os.path.relpath(cwd, u.root), boxes='none', result=repr(r))
        w.check(r.crash is None, 'a command to be refused ended with an internal error', tb=(r.tb or '')[-1500:], **info)
        w.check(bool(REPORTED.search(r.text)), 'the problem is not reported', **info)
        after = snap.snapshot(u.root)
        w.check(before == after, 'a refused command changed something', diff=snap.diff(before, after), **info)
        w.check(not [p for e, p in log if e == 'BLOCKED'], 'a refused command tried to change something outside of the world', **info)
        w.seen('reason', [reason, argv[:2], 'no boxes'])
        if before != after:
            return
    r = invoke(['save'], world.ws, home)
    d = os.path.join(home, 'BeadBox')
    w.check(r.ok and os.path.isdir(d) and len(zips(d)) == 1, 'the first save does not make a box', result=repr(r))


# ---- (b)

ALPHABET = (list('abcXYZ019') + list(' ._-+=~@#$%^&()[]{}!,;\'"`|<>?*') + ['é', 'e\u0301', '日', '😀', 'ß', 'İ', '\u200b', '\u202e', '\ufeff', '\xa0', '\udc80', '\udcff',
            '\n', '\t', '\r', '\x01', '\x7f', '\x1b', '\x85', '\u2028', ':', '\\', '__', '%41', '..', '.zip', '_20200101', '_20200101T000000', '\ud7ff', '\uffff'])


def random_name(rng):
    r = rng.random()
    if r < .1:
        unit = rng.choice(['x', 'ü', '日', 'ab'])
        size = rng.choice([200, 218, 219, 220, 221, 222, 223, 224, 225, 226, 250, 254, 255, 256, 300])
        return unit * (size // len(unit.encode())) + 'y' * rng.choice([0, 0, 1])
    if r < .3:
        return rng.choice(gen.BEAD_NAMES + gen.FILE_NAMES)
    if r < .4:
        c = rng.choice(ALPHABET)
        return rng.choice([c, 'a' + c, c + 'a', 'a' + c + 'a', c + c if c != '-' else 'c-'])
    name = ''.join(rng.choice(ALPHABET) for _ in range(rng.choice([1, 2, 3, 5, 9])))
    # argparse drops a positional that is literally --
    return name if name != '--' else 'dashes'


def classes(name):
    return sorted({unicodedata.category(c) if ord(c) > 127 else ('Ll' if c.isalnum() else c) for c in name})[:5] + [len(os.fsencode(name)) // 50, name[:1] in '.-_ ', name[-1:] in '. ']


def names(case, w):
    rng = w.rng
    u = User(w)
    box = u.add_box('box')
    if rng.random() < .4:
        u.must('box', 'index', '--box', 'box')
    u.mkdir('work')
    source = put_bead(box, rng, 'source-bead', kind='source-kind', instant=1_500_000_000_000_000, data={'d': b'1'})
    source2 = put_bead(box, rng, 'source-bead', kind='source-kind', instant=1_500_000_100_000_000, data={'d': b'2'})
    u.must('box', 'index', '--box', 'box')
    for _ in range(case['n']):
        workspace_name(w, u, box, random_name(rng), source)
    ws = u.path('work', 'ws')
    u.must('new', ws)
    for _ in range(case['n']):
        input_name(w, u, box, ws, random_name(rng), source, source2)


def workspace_name(w, u, box, name, source):
    rng = w.rng
    if '/' in name or name in ('.', '..', ''):
        return
    work = u.path('work')
    before = snap.snapshot(u.root)
    r = u.bead('new', '--', name, cwd=work)
    info = dict(name=ascii(name), argv=[ascii(a) for a in r.argv])
    w.check(r.crash is None, 'internal error for a name', result=repr(r), tb=(r.tb or '')[-1500:], **info)
    ws = os.path.join(work, name)
    if r.code:
        w.count('refused_names')
        after = snap.snapshot(u.root)
        w.check(before == after, 'a refused name changed something', diff=snap.diff(before, after), **info)
        w.seen('state', ['refused', classes(name)])
        return
    w.count('accepted_names')
    w.seen('state', ['accepted', classes(name)])
    w.check(sorted(os.listdir(work)) == sorted({*before_names(before, 'work'), name}) and is_valid_ws(ws), 'something else was created', listing=[ascii(n) for n in os.listdir(work)], **info)

    def must(what, *argv, cwd=ws):
        r = u.bead(*argv, cwd=cwd)
        w.count('name_commands')
        w.check(r.ok, 'an accepted name does not work', step=what, result=ascii(repr(r)), tb=(r.tb or '')[-1500:], **info)
        return r
    gen.write_tree(ws, {'src': name.encode('utf-8', 'surrogateescape'), 'output/o': b'o'})
    must('input add', 'input', 'add', 'in', 'source-bead')
    must('status', 'status')
    must('status', 'status', '-v', '-w', ws, cwd=u.root)
    n = len(os.listdir(box))
    must('save', 'save')
    saved = [b for b in box_records(box) if b.name != 'source-bead']
    mine = [b for b in saved if b.name == name]
    w.check(len(mine) == 1, 'the saved bead has another name', names=[ascii(b.name) for b in saved], **info)
    if len(mine) != 1:
        return
    must('edit', 'edit', '--', name, 'again', cwd=work)
    again = os.path.join(work, 'again')
    w.check(ws_trees(again)[0] == {'src': name.encode('utf-8', 'surrogateescape')}, 'editing by name opened another bead', **info)
    must('discard', 'discard', again, cwd=work)
    other = os.path.join(work, 'other')
    must('new', 'new', 'other', cwd=work)
    must('use as input', 'input', 'add', '--', 'x', name, cwd=other)
    w.check(ws_inputs(other)['x'][1] == mine[0].content_id, 'another bead is used as input', **info)
    must('status of user', 'status', cwd=other)
    must('update', 'input', 'update', cwd=other)
    must('update', 'input', 'update', '--', 'x', name, cwd=other)
    must('web', 'web', 'color', 'save', u.path('x.web'), 'heads', 'dot', u.path('x.dot'))
    must('web', 'web', '/', name, '..', name, '/', 'save', u.path('x.web'))
    must('web load', 'web', 'load', u.path('x.web'), 'save', u.path('y.web'))
    must('discard', 'discard', cwd=other)
    how = rng.choice(['cwd', 'name', 'path'])
    if how == 'cwd':
        must('discard', 'discard')
    elif how == 'name':
        must('discard', 'discard', '--', name, cwd=work)
    else:
        must('discard', 'discard', ws, cwd=u.root)
    w.check(not os.path.lexists(ws), 'workspace is not discarded', **info)
    # without a name for the workspace
    must('edit', 'edit', '--', name, cwd=work)
    w.check(is_valid_ws(ws), 'the bead was opened under another name', listing=[ascii(n) for n in os.listdir(work)], **info)
    must('discard', 'discard', '-f', '--', name, cwd=work)
    os.unlink(mine[0].path)
    must('index', 'box', 'index', '--box', 'box', cwd=u.root)


def before_names(snapshot, top):
    return {k[len(top) + 1:] for k in snapshot if k.startswith(top + '/') and '/' not in k[len(top) + 1:]}


def input_name(w, u, box, ws, nick, source, source2):
    rng = w.rng
    recorded = ws_inputs(ws)
    before = snap.snapshot(u.root)
    r = u.bead('input', 'add', '--', nick, source.path, cwd=ws)
    info = dict(nick=ascii(nick), argv=[ascii(a) for a in r.argv])
    w.check(r.crash is None, 'internal error for a name', result=ascii(repr(r)), tb=(r.tb or '')[-1500:], **info)
    if r.code:
        w.count('refused_nicks')
        after = snap.snapshot(u.root)
        w.check(before == after, 'a refused name changed something', diff=snap.diff(before, after), **info)
        w.seen('state', ['refused nick', classes(nick)])
        return
    w.count('accepted_nicks')
    w.seen('state', ['accepted nick', classes(nick)])

    def must(what, *argv, cwd=ws):
        r = u.bead(*argv, cwd=cwd)
        w.count('name_commands')
        w.check(r.ok, 'an accepted name does not work', step=what, result=ascii(repr(r)), tb=(r.tb or '')[-1500:], **info)
        return r

    def loaded(bead):
        w.check(set(ws_inputs(ws)) == {*recorded, nick} and ws_inputs(ws)[nick][1] == bead.content_id, 'wrong input is recorded', now=ascii(sorted(ws_inputs(ws))), **info)
        w.check(input_tree(ws, nick) == bead.data, 'wrong data is loaded', **info)
    loaded(source)
    must('status', 'status')
    must('unload', 'input', 'unload', '--', nick)
    w.check(not os.path.lexists(os.path.join(ws, 'input', nick)), 'the input is not unloaded', **info)
    must('load', 'input', 'load', '--', nick)
    loaded(source)
    must('update', 'input', 'update', '--', nick)
    loaded(source2)
    must('update', 'input', 'update', '--prev', '--', nick)
    loaded(source)
    must('update all', 'input', 'update')
    loaded(source2)
    must('save', 'save')
    saved = [b for b in box_records(box) if b.name == 'ws'][0]
    w.check(beadfile.normal_inputs(saved.inputs)[nick][1] == source2.content_id, 'the input is not saved', **info)
    must('web', 'web', 'color', 'save', u.path('x.web'), 'heads', 'dot', u.path('x.dot'))
    must('edit', 'edit', 'ws', u.path('again'), cwd=u.root)
    w.check(ws_inputs(u.path('again'))[nick][1] == source2.content_id, 'the input is not kept by edit', **info)
    must('load all', 'input', 'load', cwd=u.path('again'))
    w.check(input_tree(u.path('again'), nick) == source2.data, 'wrong data is loaded', **info)
    must('discard', 'discard', u.path('again'), cwd=u.root)
    os.unlink(saved.path)
    must('index', 'box', 'index', '--box', 'box')
    if rng.random() < .8:
        must('delete', 'input', 'delete', '--', nick)
        w.check(set(ws_inputs(ws)) == set(recorded) - {nick} and not os.path.lexists(os.path.join(ws, 'input', nick)), 'the input is not deleted', **info)

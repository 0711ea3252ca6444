import io
import os
import re
import signal
import subprocess
import sys
import time

from harness import audit, beadfile, faults, gen
from harness.cli import User
from harness.runner import force_rmtree
from harness.world import put_bead

PROPERTY = 'C31'
LEVEL = 'exploration'
RULE = ('one case = a world with workspaces and boxes at hostile places, in which random command lines (all commands and options, right and wrong values, too few and too many, '
        'abbreviations, repetitions) are run in processes of their own by the program entry point, from hostile current directories, in random environments (encoding of the output, '
        'terminal size, time zone, umask, home directory, closed output), and the help of every command is asked for; '
        'monitored: no exception may reach the top level, no error report is written; non-trivial = distinct (command, options, number and kinds of values, environment, exit code)')
REQUIRED = {'command_lines': 3500, 'succeeded': 600, 'failed': 900, 'helps': 500, 'help_shown': 500, 'encodings': 800, 'closed_outputs': 150, 'odd_homes': 120, 'odd_places': 800, 'fresh_processes': 40,
            '#help': 20, '#shape': 1200, 'ok_edit': 40, 'ok_save': 40, 'ok_input_add': 50, 'ok_input_update': 15, 'ok_new': 50, 'ok_discard': 12, 'ok_web': 100, 'ok_status': 100, 'ok_box_add': 60, 'ok_box_index': 30}
ASSUMPTIONS = ['the files of the tool itself (registry, workspace metadata) are undamaged, there is enough memory and disk space']

PLACES = ['50%', '%s', '%(default)s', '%d%%', 'a b', 'ünï', '日本', 'und\udcff', 'new\nline', '{}', '{0}', '$HOME', '~', '-x', '--help', "it's", '"', '\\', '*', '[a]', '#', 'x' * 200, '\x1b[31m', '%(prog)s', '😀']
COMMANDS = [('new',), ('edit',), ('discard',), ('save',), ('status',), ('web',), ('nuke',), ('version',), ('input', 'add'), ('input', 'delete'), ('input', 'rm'), ('input', 'update'),
            ('input', 'load'), ('input', 'unload'), ('box', 'add'), ('box', 'list'), ('box', 'forget'), ('box', 'index'), ('box', 'reindex'), (), ('input',), ('box',)]
WEIGHT = [3, 4, 2, 4, 4, 6, 1, 1, 6, 2, 1, 5, 3, 3, 3, 2, 2, 2, 2, 1, 1, 1]


def plan(tier, rng):
    n = 60 if tier == 'quick' else 900
    return [dict(lines=90 if tier == 'quick' else 150) for i in range(n)]


class Environment:
    def __init__(self, rng, u):
        self.encoding = rng.choice(['utf-8', 'utf-8', 'utf-8', 'ascii', 'latin-1', 'cp1252', 'utf-8'])
        self.errors = rng.choice(['strict', 'surrogateescape']) if self.encoding == 'utf-8' else 'strict'
        self.vars = {'BROWSER': u.w.browser}
        self.odd = []
        if rng.random() < .3:
            self.vars['COLUMNS'] = rng.choice(['', 'x', '0', '-3', '7', '1', '20', '500', '80.5', ' 80'])
            self.odd.append('columns')
        if rng.random() < .2:
            self.vars['TZ'] = rng.choice(['UTC', 'Asia/Tokyo', 'America/New_York', 'garbage', '', 'XXX-14', 'Pacific/Chatham'])
            self.odd.append('tz')
        if rng.random() < .1:
            self.vars['TERM'] = rng.choice(['dumb', '', 'xterm'])
        self.umask = rng.choice([0o022, 0o022, 0o022, 0o077, 0o027, 0])
        self.pwd = rng.choice([None] * 9 + ['/', '/nonexistent', '', 'x'])
        self.out = rng.choice(['file'] * 16 + ['closed', 'closed', 'none'])
        self.home = 'normal' if rng.random() < .93 else rng.choice(['unwritable', 'file', 'missing', 'new'])

    def describe(self):
        return dict(encoding=self.encoding, errors=self.errors, vars=self.vars, umask=self.umask, out=self.out, home=self.home)


def shell(w, u, argv, cwd, e, fresh=False):
    '''run the program as a process'''
    out, err = os.path.join(w.dir, 'out'), os.path.join(w.dir, 'err')
    home = {'normal': u.home, 'unwritable': u.path('ro home'), 'file': u.path('file home'), 'missing': u.path('ro home', 'missing'), 'new': u.path(f'new home {w.rng.randrange(10 ** 9)}')}[e.home]
    env = dict(e.vars, HOME=home, PWD=cwd if e.pwd is None else e.pwd)
    if fresh:
        env = dict(os.environ, **env, PYTHONIOENCODING=f'{e.encoding}:{e.errors}')
        env.pop('XDG_CONFIG_HOME', None)
        env.pop('LD_PRELOAD', None)
        repo = os.environ.get('VERIF_REPO', '/repo')
        with open(out, 'wb') as o, open(err, 'wb') as er:
            p = subprocess.run([sys.executable, os.path.join(repo, '__main__.py'), *argv], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=o, stderr=er, timeout=60,
                               preexec_fn=lambda: os.umask(e.umask))
        data = dict(exit=p.returncode, escaped=None, blocked=[])
        w.count('fresh_processes')
    else:
        def child(_fd):
            os.environ.update(env)
            for k in ('XDG_CONFIG_HOME',):
                os.environ.pop(k, None)
            time.tzset()
            os.umask(e.umask)
            os.chdir(cwd)
            for fd, f in ((1, out), (2, err)):
                x = os.open(f, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(x, fd)
            if e.out == 'closed':
                r, wr = os.pipe()
                os.close(r)
                os.dup2(wr, 1)
            sys.stdout = sys.__stdout__ = io.TextIOWrapper(open(1, 'wb', closefd=False), encoding=e.encoding, errors=e.errors)
            sys.stderr = io.TextIOWrapper(open(2, 'wb', closefd=False), encoding=e.encoding, errors='backslashreplace', line_buffering=True)
            if e.out == 'none':
                # bead ... >&-
                os.close(1)
                sys.stdout = sys.__stdout__ = None
            sys.argv = ['bead', *argv]
            signal.signal(signal.SIGPIPE, signal.SIG_IGN)
            import bead_cli.main
            code, escaped = None, None
            with audit.watch(fence=w.dir) as log:
                try:
                    bead_cli.main.main()
                except SystemExit as x:
                    code = x.code
                except BaseException:
                    import traceback
                    escaped = traceback.format_exc()[-1500:]
            try:
                if sys.stdout:
                    sys.stdout.flush()
            except BrokenPipeError:
                pass
            except Exception:
                import traceback
                escaped = traceback.format_exc()[-1500:]
            sys.stderr.flush()
            return dict(exit=code, escaped=escaped, blocked=[p for ev, p in log if ev == 'BLOCKED'])
        data = faults.in_child(child, timeout=90).data
    read = lambda f: open(f, encoding=e.encoding, errors='replace').read() if os.path.exists(f) else ''
    return data, read(out), read(err)


def build(w):
    rng = w.rng
    u = User(w)
    u.boxes = {}
    tops = rng.sample(PLACES, 4)
    for i, n in enumerate(rng.choice([['one'], ['one', 'two'], ['one', 'b%x', 'ünï']])):
        # (some below the home directory, some at a place that only looks like that)
        u.boxes[n] = rng.choice([u.path(tops[i] + 'box')] * 4 + [os.path.join(u.home, 'box') + n, u.home + ' box' + n, u.home + n])
        os.mkdir(u.boxes[n])
        u.must('box', 'add', '--', n, u.boxes[n])
    u.names = rng.sample([n for n in gen.BEAD_NAMES if '__' not in n], 3) + ['50%', 'und\udcff']
    u.beads = []
    for i in range(7):
        known = rng.choice(u.beads) if u.beads and rng.random() < .5 else None
        u.beads.append(put_bead(rng.choice(list(u.boxes.values())), rng, rng.choice(u.names), kind=rng.choice(['k1', 'k2']),
                                inputs={known.name: (known.kind, known.content_id, known.freeze_time_str)} if known else {}))
    with open(os.path.join(rng.choice(list(u.boxes.values())), 'broken.zip'), 'w') as f:
        f.write('x')
    # the entry point has its own idea of the place of the registry
    top, place = os.path.dirname(u.config), 'bead_cli-6a4d9d98-8e64-4a2a-b6c2-8a753ea61daf'
    if not os.path.lexists(os.path.join(top, place)):
        os.symlink(u.config, os.path.join(top, place))
    u.ws = []
    for i in range(2):
        top = u.mkdir(rng.choice(PLACES), f'at{i}')
        ws = os.path.join(top, rng.choice([p for p in PLACES if '\n' not in p and '\x1b' not in p and '\\' not in p]))
        r = u.bead('new', ws)
        if not r.ok:
            ws = os.path.join(top, 'ws')
            u.must('new', ws)
        gen.write_tree(ws, {'src/x': b's', 'output/o': b'o'})
        for nick, b in zip(['a', '50%', 'ü'], u.beads):
            u.must('input', 'add', '--', nick, b.path, cwd=ws)
        u.ws.append(ws)
    if rng.random() < .5:
        u.must('box', 'index', '--all')
    u.plain = u.mkdir(rng.choice(PLACES) + 'plain')
    u.ro = u.mkdir('read only dir')
    os.chmod(u.ro, 0o555)
    os.mkdir(u.path('ro home'), 0o555)
    with open(u.path('file home'), 'w'):
        pass
    with open(os.path.join(u.plain, 'file'), 'w') as f:
        f.write('{"x": ')
    u.places = [u.root, u.plain, u.ro, *u.ws, os.path.join(u.ws[0], 'src'), os.path.join(u.ws[0], 'input'), os.path.join(u.ws[0], 'input', 'a'), os.path.join(u.ws[1], 'output'), *u.boxes.values()]
    return u


def value(w, u, kind):
    rng = w.rng
    bead = rng.choice(u.beads)
    junk = lambda: rng.choice(['', ' ', '.', '..', '-', '%', '%s', 'und\udcfe', 'x' * 300, 'a/b', '\n', '0', '\x1b[0m', '日本', '{}', 'None', '🙂', '-1', 'a__b', '/dev/null', './', 'nul'])
    if rng.random() < (.02 if u.good else .18):
        kind = 'junk'
    if u.good and kind in ('bead', 'nick', 'box', 'new path', 'time'):
        # what usually works
        return {'bead': lambda: rng.choice([bead.path, bead.name]), 'nick': lambda: rng.choice(['a', '50%', 'ü', f'n{rng.randrange(99)}', rng.choice(PLACES)]), 'box': lambda: rng.choice([*u.boxes]),
                'new path': lambda: rng.choice([u.path(f'n{rng.randrange(9999)}'), os.path.join(u.plain, rng.choice(PLACES)), f'n{rng.randrange(9999)}']),
                'time': lambda: rng.choice([bead.freeze_time_str, '1h', '20380101', '2038-01-01'])}[kind]()
    return {
        'junk': junk,
        'new path': lambda: rng.choice(['new', 'new', u.path(f'n{rng.randrange(99)}'), rng.choice(PLACES), os.path.join(u.plain, rng.choice(PLACES)), os.path.join(u.ro, 'n'), os.path.join(u.plain, 'no', 'n'), u.plain, u.ws[0]]),
        'bead': lambda: rng.choice([bead.path, bead.name, bead.name, os.path.basename(bead.path), u.plain, os.path.join(u.plain, 'file'), 'unknown', rng.choice(PLACES)]),
        'nick': lambda: rng.choice(['a', 'a', '50%', 'ü', 'b', bead.name, rng.choice(PLACES), 'new1', 'new2']),
        'box': lambda: rng.choice([*u.boxes, 'one', 'new', rng.choice(PLACES)]),
        'dir': lambda: rng.choice([*u.boxes.values(), u.plain, u.ro, u.root, os.path.join(u.plain, 'file'), rng.choice(PLACES), u.path('nothing'), '.']),
        'ws': lambda: rng.choice([*u.ws, u.ws[0], os.path.join(u.ws[0], 'src'), u.plain, '.', u.path('nothing'), '..']),
        'time': lambda: rng.choice([bead.freeze_time_str, '1d', '1h', '2m', '20200101', '2020-01-01', '2020-02-30', 'x', '', '1y', '9999999999999999d', '00010101', '0001-01-01T00:00:00', '99991231',
                                    '9999-12-31T23:59:59-14:00', '0001-01-01T00:00:00+14:00', '20200101T1', '2020-W10', '2020-001', '-1d', '1.5h', '1_0d', '٣d', '1e3m', '24:00', '2020-01-01T24:00:00']),
        'file': lambda: rng.choice(['x.web', 'y.web', u.path('x.web'), u.path('y.web'), 'x.dot', 'x.svg', os.path.join(u.plain, 'file'), u.plain, os.path.join(u.ro, 'f'), rng.choice(PLACES), u.path('nothing', 'x')]),
    }[kind]()


def web_words(w, u):
    rng = w.rng
    words = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5])):
        k = rng.choice(['load', 'save', 'save', 'dot', 'svg', 'png', '/', '/', 'color', 'color', 'heads', 'view', 'junk'])
        if k == 'junk':
            words.append(value(w, u, 'junk'))
        elif k == '/':
            words += ['/', *[value(w, u, 'bead') for _ in range(rng.choice([0, 1, 2]))], *rng.choice([['..']] * 9 + [[]]), *[value(w, u, 'bead') for _ in range(rng.choice([0, 1]))], *rng.choice([['/']] * 9 + [[]])]
        elif k in ('color', 'heads'):
            words.append(k)
        else:
            words += [k] + ([value(w, u, 'file')] if rng.random() < .94 else [])
    return words


VALUES = {'new': ['new path'], 'edit': ['bead', 'new path'], 'discard': ['ws'], 'nuke': ['ws'], 'save': ['box'], 'status': [], 'version': [], 'input add': ['nick', 'bead'], 'input delete': ['nick'],
          'input rm': ['nick'], 'input update': ['nick', 'bead'], 'input load': ['nick'], 'input unload': ['nick'], 'box add': ['box', 'dir'], 'box list': [], 'box forget': ['box'], 'box index': [], 'box reindex': []}
OPTIONS = {'edit': ['-t', '--review', '--time'], 'discard': [], 'save': ['-w', '--workspace'], 'status': ['-w', '-v', '--verbose'], 'input add': ['-t', '-w'], 'input delete': ['-w'], 'input rm': ['-w'],
           'input update': ['-t', '-N', '-P', '--prev', '--previous', '--next', '-w', '--time'], 'input load': ['-w'], 'input unload': ['-w', '--workspace'],
           'box index': ['--all', '--box', '--dir'], 'box reindex': ['--all', '--box', '--dir']}
TAKES = {'-t': 'time', '--time': 'time', '-w': 'ws', '--workspace': 'ws', '--box': 'box', '--dir': 'dir'}


def command_line(w, u):
    rng = w.rng
    words = rng.choices(COMMANDS, WEIGHT)[0]
    cmd = ' '.join(words)
    shape = []
    if cmd == 'web':
        args = web_words(w, u)
        return list(words) + args, [cmd, [a for a in args if a in ('load', 'save', 'dot', 'svg', 'png', '/', '..', 'color', 'heads', 'view')]]
    args = []
    options = OPTIONS.get(cmd, [])
    for _ in range(rng.choice([0, 0, 1] if u.good else [0, 0, 1, 1, 2, 3]) if options else 0):
        o = rng.choice(options)
        shape.append(o)
        if rng.random() < .05 and o.startswith('--'):
            o = o[:rng.randint(3, len(o))]
        if o in TAKES and rng.random() < .97:
            v = value(w, u, TAKES[o])
            args += [f'{o}={v}'] if o.startswith('--') and rng.random() < .5 else [o, v]
        else:
            args.append(o)
    kinds = VALUES.get(cmd, [])
    n = len(kinds) if rng.random() < (.9 if u.good else .7) else rng.choice([0, 1, len(kinds) + 1])
    values = [value(w, u, kinds[i] if i < len(kinds) else 'junk') for i in range(n)]
    # (only nothing that exists is removed by force)
    if cmd in ('discard', 'nuke') and rng.random() < .2:
        args.append(rng.choice(['-f', '--force']))
        values = [rng.choice([u.path('nothing'), os.path.join(u.plain, 'file'), os.path.join(u.ro, 'x'), 'nothing'])]
        shape.append('-f')
    if rng.random() < .04 and not u.good:
        args.append(rng.choice(['-x', '--unknown', '--', '-h=3', '-']))
    if values and (any(v.startswith('-') for v in values) or rng.random() < .4) and rng.random() < .9:
        args += ['--', *values]
    elif rng.random() < .5:
        args = values + args
    else:
        args += values
    if rng.random() < .01 and not u.good:
        words = words[:-1] + (rng.choice(['', 'x', 'ad', '-']),)
    return list(words) + args, [cmd, sorted(shape), len(values)]


def judge(w, argv, cwd, e, data, out, err, before):
    info = dict(argv=argv, cwd=cwd, environment=e.describe())
    w.check(data is not None, 'the process died', **info)
    if data is None:
        return
    w.check(not data['escaped'], 'an exception reached the user', tb=data['escaped'], out=out[-300:], err=err[-600:], **info)
    reports = sorted(n for n in os.listdir(cwd) if re.fullmatch(r'error_\d{8}T\d+[+-]\d+\.txt', n)) if os.path.isdir(cwd) and os.access(cwd, os.R_OK | os.X_OK) else []
    text = ''
    for n in reports:
        text = open(os.path.join(cwd, n), encoding='utf-8', errors='replace').read()[-2500:]
        os.unlink(os.path.join(cwd, n))
    w.check(not reports and 'please report this problem' not in err and 'Traceback' not in err, 'a command ended with an internal error', report=text, err=err[-800:], **info)
    w.check(not data['blocked'], 'a command tried to modify something outside of its world', log=data['blocked'][:3], **info)


def run_case(case, w):
    rng = w.rng
    w.browser = '/bin/true'
    u = build(w)
    helps(w, u, case)
    for i in range(case['lines']):
        u.good = rng.random() < .5
        argv, shape = command_line(w, u)
        e = Environment(rng, u)
        places = [p for p in u.places if os.path.isdir(p)]
        if not places or not any(os.path.isdir(x) for x in u.ws):
            u = renewed(w, u)
            u.good = False
            places = u.places
        cwd = rng.choice(places)
        if u.good and rng.random() < .7:
            cwd = rng.choice([p for p in places if p.startswith(tuple(u.ws))] or places)
        if i % 10 == 9:
            for name, place in u.boxes.items():
                u.bead('box', 'add', '--', name, place)
        fresh = rng.random() < .012 and e.out == 'file' and '-f' not in argv and '--force' not in argv
        data, out, err = shell(w, u, argv, cwd, e, fresh)
        judge(w, argv, cwd, e, data, out, err, None)
        w.count('command_lines')
        code = (data or {}).get('exit')
        w.count('succeeded' if code in (0, None) else 'failed')
        if code in (0, None):
            w.count(f'ok_{shape[0] or "nothing"}'.replace(' ', '_'))
        if code not in (0, None) and e.out == 'file' and e.home == 'normal':
            w.check(bool((out + err).strip()), 'a command failed without telling why', argv=argv, cwd=cwd, code=code, environment=e.describe())
        if e.encoding != 'utf-8' or e.errors == 'strict':
            w.count('encodings')
        if e.out != 'file':
            w.count('closed_outputs')
        if e.home != 'normal':
            w.count('odd_homes')
        if cwd != u.root:
            w.count('odd_places')
        w.seen('shape', [shape, e.encoding, e.odd, e.home, e.out, code])
        if i % 30 == 0:
            w.sample(dict(argv=[ascii(a) for a in argv], code=code, environment=e.describe()))
    os.chmod(u.ro, 0o755)
    os.chmod(u.path('ro home'), 0o755)


def renewed(w, u):
    os.chmod(u.ro, 0o755)
    os.chmod(u.path('ro home'), 0o755)
    force_rmtree(u.root)
    return build(w)


def helps(w, u, case):
    rng = w.rng
    for words in rng.sample(COMMANDS, 10):
        e = Environment(rng, u)
        e.out = 'file'
        e.home = rng.choice(['normal'] * 9 + ['new'])
        e.vars.pop('COLUMNS', None)
        cwd = rng.choice(u.places)
        argv = [*words, rng.choice(['-h', '--help', '--help', '--hel'])]
        if words == ('web',):
            # the rest of its command line is not for options
            argv = ['web', '--help']
        data, out, err = shell(w, u, argv, cwd, e)
        judge(w, argv, cwd, e, data, out, err, None)
        w.count('helps')
        ok = out.lstrip().startswith('usage:')
        flat = re.sub(r'\s+', ' ', out)
        missing = [x for x in words if x not in flat]
        for o in OPTIONS.get(' '.join(words), []):
            if o not in flat:
                missing.append(o)
        if words in ((), ('input',), ('box',)):
            missing += [c[-1] for c in COMMANDS if c[:-1] == words and c and not re.search(rf'\b{c[-1]}\b', flat)]
        if w.check(ok and not missing, 'help is not shown', argv=argv, cwd=cwd, missing=missing, out=out[-500:], err=err[-500:], environment=e.describe()):
            w.count('help_shown')
            w.seen('help', [words])
    # without any sub-command the usage of web is shown
    e = Environment(rng, u)
    e.out = 'file'
    data, out, err = shell(w, u, ['web'], rng.choice(u.places), e)
    judge(w, ['web'], u.root, e, data, out, err, None)
    w.check(all(x in out for x in ('load', 'save', 'png', 'svg', 'color', 'heads', 'view')) or e.home not in ('normal', 'new'), 'usage of web is not shown', out=out[-400:])

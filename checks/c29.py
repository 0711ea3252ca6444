import os

from harness import snap, webs
from harness.cli import User

PROPERTY = 'C29'
LEVEL = 'exploration'
RULE = ('one case = boxes with a random web and random sequences of web sub-commands on one command line (load, filters, colour, heads, save, dot, svg, '
        'view, in any order, with names equal to sub-commands); every file written on the way is compared with an independently calculated state of the '
        'pipe-line at that point, the files shown are those recorded by a stand-in browser, and malformed or failing sequences must have exactly the '
        'effects before the failure; non-trivial = distinct (sequence of sub-commands, beads in the written file) tuples')
REQUIRED = {'pipelines': 500, 'files': 900, 'drawn': 200, 'viewed': 80, 'view_in_the_middle': 30, 'overwritten': 200, 'loads': 200, 'boxes_not_read': 60, 'malformed': 250,
            'failing': 80, 'same_as_steps': 80, 'filters': 200, 'coloured': 200, 'heads': 150, '#pipeline': 400}

NAMES = ['color', 'heads', 'save', 'load', 'view', 'a', 'b', 'data', 'raw data', 'ünï', 'x.web', 'svg', 'a b', '日本', 'png', '...', 'dot', '0']


def plan(tier, rng):
    n = 300 if tier == 'quick' else 4000
    return [dict(size=[2, 5, 9, 16][i % 4], boxes=1 + i % 2) for i in range(n)]


def setup_worker(w):
    # a browser, that only records what it was asked to show
    w.browser = os.path.join(w.base, 'browser')
    with open(w.browser, 'w') as f:
        f.write('#!/bin/sh\nprintf "%s\\n" "$1" >> "$BROWSED"\n')
    os.chmod(w.browser, 0o755)
    os.environ['BROWSER'] = w.browser + ' %s'


class State:
    '''what flows in the pipe-line'''

    def __init__(self, web):
        self.web = web
        self.colour = {r: 'PHANTOM' if n.phantom else 'SUPERSEDED' for r, n in web.nodes.items()}

    def with_web(self, web):
        s = State(web)
        s.colour = {r: self.colour[r] for r in web.nodes}
        return s

    def coloured(self):
        s = State(self.web)
        s.colour = self.web.colors()
        return s


def make_steps(rng, w, files, n, base, overwrite=False):
    '''random valid sub-commands; files: names of saved webs -> State or None, when it is known only later'''
    steps = []
    saved = list(files)
    for i in range(n):
        k = rng.choice(['color', 'heads', 'filter', 'filter', 'save', 'save', 'save', 'dot', 'svg', 'view', 'load'])
        if k == 'load':
            if not saved:
                continue
            steps.append(('load', rng.choice(saved)))
        elif k in ('save', 'dot', 'svg'):
            f = f'{base}{i} x.{"web" if k == "save" else k}'
            if k == 'svg' and rng.random() < .7:
                continue
            if k == 'save' and overwrite and saved and rng.random() < .4:
                f = rng.choice(saved)
            steps.append((k, f))
            if f in saved and rng.random() < .5:
                steps.append(('load', f))
            if k == 'save':
                saved.append(f)
        elif k == 'view':
            steps.append(('view', rng.choice(saved + ['some.svg'])))
        elif k == 'filter':
            some = lambda: rng.sample(NAMES, rng.choice([0, 1, 1, 2]))
            steps.append(('filter', some(), some()))
        else:
            steps.append((k,))
    return steps


def words_of(steps):
    words = []
    for s in steps:
        words += ['/', *s[1], '..', *s[2], '/'] if s[0] == 'filter' else list(s)
    return words


def check_file(w, u, path, state, info):
    got = webs.read_web(path)
    w.count('files')
    d = webs.compare(state.web, got)
    if not w.check(not d, 'saved web is not what the sub-commands before it produce', diff=d, file=path, **info):
        return
    colours = {f[:2]: c for f, _, c, _ in got}
    w.check(colours == state.colour, 'freshness is not what the sub-commands before it produce', file=path,
            diff=[(str(state.web.nodes[r]), c, state.colour[r]) for r, c in colours.items() if c != state.colour[r]][:4], **info)


def simulate(w, u, steps, start, files, info, stop=None):
    '''expected state after each step, and check of the files on the way'''
    s = start
    viewed = []
    for i, step in enumerate(steps):
        k = step[0]
        if k == 'load':
            s = files[step[1]]
            w.count('loads')
        elif k == 'color':
            s = s.coloured()
            w.count('coloured')
        elif k == 'heads':
            s = s.with_web(s.web.heads()[0])
            w.count('heads')
        elif k == 'filter':
            web, lone = s.web.filtered(set(step[1]), set(step[2]))
            w.count('filters')
            if lone:
                # whether a computation without any connection is kept is not specified
                return None, viewed
            s = s.with_web(web)
        elif k == 'save':
            if step not in steps[i + 1:]:
                check_file(w, u, u.path(step[1]), s, dict(info, step=i))
            if step[1] in files:
                w.count('overwritten')
            files[step[1]] = s
            w.seen('pipeline', [words_of(steps[:i + 1]), len(s.web.nodes)])
        elif k in ('dot', 'svg'):
            text = open(u.path(step[1]), encoding='utf-8').read()
            w.count('drawn')
            if k == 'dot':
                for r in s.web.nodes:
                    w.check(r[1] in text, 'bead is not in the drawing', bead=r, file=step[1], **info)
                    w.check(text.count(f'PORT="out_{r[1]}"') <= len([x for x in s.web.nodes if x[1] == r[1]]), 'bead is drawn more than once', bead=r, **info)
        elif k == 'view':
            viewed.append(step[1])
            w.count('viewed')
            if i + 1 < len(steps):
                w.count('view_in_the_middle')
    return s, viewed


def browsed(u):
    p = u.path('browsed')
    if not os.path.exists(p):
        return []
    lines = open(p, encoding='utf-8').read().splitlines()
    os.unlink(p)
    return lines


def same_file(u, shown, name):
    shown = shown[len('file://'):] if shown.startswith('file://') else shown
    return os.path.join(u.root, shown) == u.path(name)


def run_case(case, w):
    rng = w.rng
    u = User(w)
    dirs = {f'b{i}': u.add_box(f'b{i}') for i in range(case['boxes'])}
    shape, web = webs.build_boxes(rng, case['size'], rng.sample(NAMES, rng.choice([2, 4, 6])), dirs)
    everything = State(web)
    env = dict(BROWSED=u.path('browsed'), BROWSER=w.browser + ' %s')
    u.must('web', 'save', 'all.web')
    files = {'all.web': everything}
    check_file(w, u, u.path('all.web'), everything, {})
    u.must('web', 'color', 'save', 'coloured.web')
    files['coloured.web'] = everything.coloured()
    check_file(w, u, u.path('coloured.web'), files['coloured.web'], {})
    for r in range(8):
        steps = make_steps(rng, w, files, rng.randint(1, 8), f'{r}-', overwrite=True)
        if rng.random() < .25 and files:
            steps.insert(0, ('load', rng.choice(list(files))))
        if not steps:
            continue
        steps.append(('save', f'{r}-end.web'))
        words = words_of(steps)
        info = dict(words=words, shape=shape)
        if steps[0][0] == 'load':
            # boxes are not even looked at
            hidden = list(dirs.values())
            for d in hidden:
                os.rename(d, d + '.gone')
            try:
                u.must('web', *words, env=env)
            finally:
                for d in hidden:
                    os.rename(d + '.gone', d)
            w.count('boxes_not_read')
        else:
            u.must('web', *words, env=env)
        w.count('pipelines')
        before = dict(files)
        end, viewed = simulate(w, u, steps, everything, files, info)
        shown = browsed(u)
        if end is None:
            # keep only what is known
            for n in [n for n in files if n not in before]:
                del files[n]
            for k, n, *_ in [s for s in steps if s[0] == 'save']:
                files.pop(n, None)
            continue
        w.check(len(shown) == len(viewed) and all(same_file(u, a, b) for a, b in zip(shown, viewed)), 'wrong files were shown', shown=shown, want=viewed, **info)
        if rng.random() < .3:
            w.sample(dict(words=words, beads=len(end.web.nodes)))
        saves = [s for s in steps if s[0] == 'save']
        if rng.random() < .5 and len(set(saves)) == len(saves) and not any(s[1] in before for s in saves):
            step_by_step(w, u, steps, end, f'{r}s-', files, env, info)
        if rng.random() < .9:
            malformed(w, u, rng, files, env, f'{r}m-')
            malformed(w, u, rng, files, env, f'{r}n-')
            malformed(w, u, rng, files, env, f'{r}o-')
        if rng.random() < .5:
            failing(w, u, rng, everything, files, env, f'{r}f-')


def step_by_step(w, u, steps, end, base, files, env, info):
    '''every sub-command in a process of its own, with the web saved between them'''
    current = None
    for i, s in enumerate(x for x in steps if x[0] in ('load', 'color', 'heads', 'filter')):
        if s[0] == 'load':
            current = s[1]
            continue
        words = (['load', current] if current else []) + words_of([s])
        current = f'{base}{i}.web'
        u.must('web', *words, 'save', current, env=env)
    if current:
        check_file(w, u, u.path(current), end, dict(info, step_by_step=True))
        w.count('same_as_steps')


def outside(u):
    return {k: v for k, v in snap.tree_files(u.root).items() if not k.startswith('home/')}


def malformed(w, u, rng, files, env, base):
    steps = make_steps(rng, w, files, rng.randint(0, 4), base)
    words = words_of(steps)
    kind = rng.choice(['unknown word', 'missing file', 'no ..', 'no end', 'two ends', 'stray', '.. twice'])
    bad = {
        'unknown word': [rng.choice(['colour', 'SAVE', 'a', '..', 'Heads', '', 'web', 'x.web'])], 'missing file': [rng.choice(['save', 'dot', 'png', 'svg', 'view', 'load'])],
        'no ..': ['/', 'a', 'b', '/'], 'no end': ['/', 'a', '..', 'b'], 'two ends': ['/', 'a', '..', 'b', '/', '/'], 'stray': ['..'], '.. twice': ['/', '..', '..', '/'],
    }[kind]
    at = rng.randrange(len(steps) + 1)
    if kind in ('missing file', 'no end', 'two ends') or not steps:
        argv = words + bad
    else:
        argv = words_of(steps[:at]) + bad + words_of(steps[at:])
    if kind == 'no ..' and steps and at < len(steps) and any(x == '..' for x in words_of(steps[at:])):
        argv = words + bad
    before = outside(u)
    r = u.bead('web', *argv, env=env)
    w.count('malformed')
    w.check(r.crash is None and not r.ok, 'malformed sequence of sub-commands is not refused', argv=argv, kind=kind, code=r.code, crash=repr(r.crash))
    w.check(outside(u) == before and not browsed(u), 'malformed sequence of sub-commands has an effect', argv=argv, kind=kind)


def failing(w, u, rng, everything, files, env, base):
    '''a sub-command that can not be done: those before it are done, those after it are not'''
    steps = make_steps(rng, w, files, 3, base + 'a') + [('save', f'{base}done.web')]
    after = [('save', f'{base}never.web'), ('view', 'never')]
    os.makedirs(u.path('a dir'), exist_ok=True)
    with open(u.path('garbage.web'), 'w') as f:
        f.write('{"garbage"')
    bad = rng.choice([('load', 'missing.web'), ('load', 'garbage.web'), ('load', 'a dir'), ('save', 'no/such/dir/x.web'), ('dot', 'a dir'), ('svg', 'no/such/dir/x.svg')])
    argv = words_of(steps + [bad] + after)
    r = u.bead('web', *argv, env=env)
    w.count('failing')
    w.check(r.crash is None and not r.ok, 'failure is not reported', argv=argv, code=r.code, crash=repr(r.crash))
    known = dict(files)
    _, viewed = simulate(w, u, steps, everything, known, dict(argv=argv))
    shown = browsed(u)
    w.check(len(shown) == len([s for s in steps if s[0] == 'view']), 'wrong files were shown', shown=shown, argv=argv)
    w.check(not os.path.exists(u.path(f'{base}never.web')), 'sub-command after a failed one is done', argv=argv)

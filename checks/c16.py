import json
import os
import shutil
import subprocess
import sys

from harness import snap
from harness.cli import Result, User, zips

PROPERTY = 'C16'
LEVEL = 'exploration'
RULE = ('one case = one history of box add / forget / list / save / index commands (some in processes of their own) with many spellings of names and places, '
        'directories being removed and replaced by links in between, run against a model of the registry; '
        'non-trivial = distinct (command, reason of the expected outcome, number of boxes, spelling) tuples')
REQUIRED = {'added': 250, 'refused_name': 100, 'refused_place': 120, 'refused_not_directory': 80, 'forgotten': 120, 'forget_unknown': 40, 'saved_named': 120, 'saved_only': 15,
            'save_refused_ambiguous': 40, 'save_refused_unknown': 40, 'save_refused_gone': 4, 'home_box': 5, 'listed': 900, 'own_process': 60, 'indexed': 60, '#step': 140}

NAMES = ['a', 'b', 'A', 'home', 'ünï', 'Ünï', 'a b', ' a', 'a ', 'q"q', "q'q", 'x: y', '-d', '日本', '*', '[a]', 'a/b', '..', 'x' * 300, '\\n', '%s', '{}', 'None', '0', 'e\u0301', '\u00e9', 'tab\tname', '']
# easily taken for each other
ALIKE = [('a', 'A'), ('ünï', 'Ünï', 'üni'), ('a', ' a', 'a ', 'a b'), ('e\u0301', '\u00e9', 'e'), ('x' * 300, 'x' * 299, 'X' * 300), ('*', 'a', '?'), ('[a]', 'a', '[A]'), ('home', 'Home', 'home2', 'hom'),
         ('None', '', 'none'), ('0', '00', '0.0'), ('a/b', 'a', 'b', 'a\\b'), ('ß', 'ss', 'SS'), ('ﬁ', 'fi'), ('1', '１')]
PLACES = ['p0', 'p1', 'p2', 'p3', 'p0/in', 'p1/in/side', 'ünï', 'a b', "q'q", 'p*', '-p', 'per%41cent', ' lead', 'new dir', 'x' * 100, 'A', 'a']


def plan(tier, rng):
    return [dict(steps=40 if tier == 'quick' else 120, linked_home=i % 4 == 3, linked_beadbox=i % 8 == 5) for i in range(64 if tier == 'quick' else 600)]


class Model:
    def __init__(self):
        self.boxes = []     # [(name, location)]

    def names(self):
        return [n for n, _ in self.boxes]

    def places(self):
        return [p for _, p in self.boxes]


def spelling(rng, path, root, cwd):
    '''another way to refer to the same place'''
    how = rng.choice(['absolute', 'relative', 'dots', 'slash', 'link', 'link2', 'relative link', 'dot'])
    if how == 'absolute':
        return how, path
    if how == 'relative':
        return how, os.path.relpath(path, cwd)
    if how == 'dots':
        return how, os.path.join(path, '..', os.path.basename(path))
    if how == 'slash':
        return how, path + '//'
    if how == 'dot':
        return how, os.path.join(path, '.')
    link = os.path.join(root, 'links', f'l{rng.randrange(10 ** 9)}')
    os.symlink(path, link)
    if how == 'link2':
        os.symlink(os.path.dirname(link), link + '-dir')
        return how, os.path.join(link + '-dir', os.path.basename(link))
    if how == 'relative link':
        os.unlink(link)
        os.symlink(os.path.relpath(path, os.path.dirname(link)), link)
    return how, link


def run_case(case, w):
    rng = w.rng
    u = User(w, 'user')
    if case['linked_home']:
        os.rename(u.home, u.path('real home'))
        os.symlink(u.path('real home'), u.home)
    if case['linked_beadbox']:
        os.symlink(u.mkdir('elsewhere'), os.path.join(u.home, 'BeadBox'))
    m = Model()
    u.mkdir('links')
    root = u.mkdir('root')
    for p in PLACES:
        u.mkdir('root', p)
    for i, p in enumerate(PLACES):
        with open(u.path('root', p, 'precious'), 'w') as f:
            f.write(p)
    with open(u.path('root', 'file'), 'w') as f:
        f.write('x')
    os.symlink('nowhere', u.path('root', 'dangling'))
    os.symlink('loop', u.path('root', 'loop'))
    cwds = [u.root, root, u.path('root', 'p0')]
    ws = u.path('ws')
    u.must('new', ws)
    alike = rng.choice(ALIKE)
    names = list({*alike, *rng.sample(NAMES, 3 + rng.randrange(3))})
    names.sort()
    places = rng.sample(PLACES, 4) + ['A', 'a'] if rng.random() < .3 else rng.sample(PLACES, 6)
    empty_tail = 0

    def bead(*argv, cwd=None):
        if rng.random() < .035:
            w.count('own_process')
            w.count('commands')
            env = dict(os.environ, HOME=u.home)
            env.pop('LD_PRELOAD', None)
            p = subprocess.run(
                [sys.executable, '-c', 'import sys; from bead_cli.main import run; sys.exit(run(sys.argv[1], sys.argv[2:]))', u.config, *argv],
                cwd=cwd or u.root, env=env, capture_output=True, text=True, encoding='utf-8')
            w.log('process', argv, p.returncode, p.stdout[-200:], p.stderr[-300:])
            w.check('Traceback' not in p.stderr, 'a command crashes', argv=argv, err=p.stderr)
            return Result(list(argv), p.returncode, p.stdout, p.stderr, None, None)
        r = u.bead(*argv, cwd=cwd)
        w.check(r.crash is None, 'a command crashes', argv=argv, tb=r.tb)
        return r

    def files():
        '''everything the user has, except the registry; links are part of the scenery'''
        return {**snap.snapshot(root), **{'ws/' + k: v for k, v in snap.snapshot(ws).items()},
                **{'home/' + k: v for k, v in snap.snapshot(os.path.realpath(u.home), skip=('.config',)).items()},
                **({'elsewhere/' + k: v for k, v in snap.snapshot(u.path('elsewhere')).items()} if case['linked_beadbox'] else {})}

    def check_list(step):
        r = bead('box', 'list', cwd=rng.choice(cwds))
        w.count('listed')
        want = ''.join(f'{n}: {p}\n' for n, p in m.boxes)
        lines = r.out.split('-------------\n', 1)[-1] if m.boxes else ''
        w.check(r.ok and (lines == want), 'list of boxes is wrong', step=step, want=want, got=r.out, _stop=True)
        if os.path.exists(u.registry_file):
            with open(u.registry_file, encoding='utf-8') as f:
                got = [(b['name'], b['directory']) for b in json.load(f).get('boxes', [])]
            w.check(got == m.boxes, 'the registry is wrong', step=step, want=m.boxes, got=got)
        if not m.boxes:
            w.check(not any(p in r.out for p in PLACES[6:8]), 'boxes are listed, but there are none', got=r.out)

    for step in range(case['steps']):
        op = rng.choice(['add'] * 10 + ['forget'] * 2 + ['save'] * 4 + ['index', 'index', 'scenery', 'scenery'])
        if op == 'forget' and rng.random() < .1:
            op = 'forget all'
        before = files()
        cwd = rng.choice(cwds)
        why = None
        if op == 'add':
            name = rng.choice(names)
            kind = rng.choice(['dir'] * 9 + ['same place'] * 2 + ['missing', 'file', 'dangling', 'loop', 'under file'])
            how = kind
            if kind == 'same place' and m.boxes:
                place = rng.choice(m.places())
                name = rng.choice(names + ['unused name'])
                if os.path.isdir(place) and os.path.realpath(place) == place:
                    how, arg = spelling(rng, place, u.root, cwd)
                else:
                    arg = place
            elif kind in ('dir', 'same place'):
                place = os.path.join(root, rng.choice(places))
                how, arg = spelling(rng, place, u.root, cwd) if os.path.isdir(place) else ('gone', place)
            else:
                arg = os.path.join(root, {'missing': 'no such', 'under file': 'file/x'}.get(kind, kind))
            real = os.path.realpath(os.path.join(cwd, arg))
            is_dir = os.path.isdir(os.path.join(cwd, arg))
            r = bead('box', 'add', '--', name, arg, cwd=cwd)
            if not is_dir:
                why = 'not_directory'
            elif name in m.names():
                why = 'name'
            elif real in m.places():
                why = 'place'
            if why:
                w.count('refused_' + why)
                w.check('ERROR' in r.text, 'a refused box is not reported', why=why, result=repr(r))
            else:
                w.count('added')
                m.boxes.append((name, real))
                w.check(r.ok and 'ERROR' not in r.text, 'a new box is refused', result=repr(r), boxes=m.boxes)
            w.check(files() == before, 'adding a box changed files', diff=snap.diff(before, files()))
            w.seen('step', [op, why, how, len(m.boxes)])
        elif op in ('forget', 'forget all'):
            todo = list(m.names()) if op == 'forget all' else [rng.choice(m.names()) if m.boxes and rng.random() < .7 else rng.choice(NAMES + list(alike) * 5)]
            if op == 'forget all':
                rng.shuffle(todo)
            for name in todo:
                known = name in m.names()
                r = bead('box', 'forget', '--', name, cwd=cwd)
                w.count('forgotten' if known else 'forget_unknown')
                m.boxes = [b for b in m.boxes if b[0] != name]
                if known:
                    w.check(r.ok, 'a box can not be forgotten', result=repr(r))
                else:
                    w.check('WARNING' in r.text or 'ERROR' in r.text, 'forgetting an unknown box is not reported', result=repr(r))
                w.seen('step', ['forget', known, None, len(m.boxes)])
            w.check(files() == before, 'forgetting a box changed files', diff=snap.diff(before, files()))
            if op == 'forget all' and rng.random() < .5:
                # save into the default box
                bb = os.path.join(u.home, 'BeadBox')
                had = zips(bb) if os.path.isdir(bb) else []
                r = bead('save', cwd=ws)
                w.count('home_box')
                w.check(r.ok and os.path.isdir(bb) and len(zips(bb)) == len(had) + 1, 'save without boxes does not use the default one', result=repr(r))
                m.boxes.append(('home', os.path.realpath(bb)))
                w.seen('step', ['home'])
        elif op == 'save':
            name = rng.choice(m.names()) if m.boxes and rng.random() < .6 else rng.choice(NAMES + list(alike) * 5) if rng.random() < .4 else None
            if not m.boxes and name is None:
                continue
            r = bead('save', '-w', ws, *([] if name is None else ['--', name]), cwd=cwd)
            after = files()
            new = [k for k in after if k not in before]
            target = None
            if name is None:
                if len(m.boxes) == 1:
                    target = m.boxes[0][1]
                    w.count('saved_only')
                else:
                    why = 'ambiguous'
            elif name in m.names():
                target = dict(m.boxes)[name]
                w.count('saved_named')
            else:
                why = 'unknown'
            if target and not os.path.isdir(target):
                why, target = 'gone', None
            if target:
                where = [k for k in new if k.endswith('.zip')]
                w.check(r.ok and len(where) == 1, 'save failed', result=repr(r), new=new)
                real = os.path.realpath(target)
                got = [os.path.join(real, os.path.basename(k)) for k in where]
                w.check(got and os.path.isfile(got[0]) and len(zips(real)) > 0, 'saved bead is not in the chosen box', target=target, new=new)
                changed = [k for k in {**before, **after} if before.get(k) != after.get(k) and not k.endswith('.zip') and '.index.sqlite' not in k]
                w.check(not changed, 'saving changed something else', changed=changed)
            else:
                w.count('save_refused_' + why)
                w.check(r.refused and r.err.startswith('ERROR'), 'save is not refused', why=why, result=repr(r), boxes=m.boxes)
                w.check(after == before, 'refused save changed files', diff=snap.diff(before, after))
            w.seen('step', [op, why, name is None, len(m.boxes)])
        elif op == 'index' and m.boxes:
            name, place = rng.choice(m.boxes)
            if not os.path.isdir(place) or not name:
                continue
            r = bead('box', rng.choice(['index', 'reindex']), '--box=' + name, cwd=cwd)
            w.count('indexed')
            after = files()
            changed = [k for k in {**before, **after} if before.get(k) != after.get(k)]
            allowed = os.path.join(os.path.realpath(place), '.index.sqlite')
            w.check(r.ok and os.path.isfile(allowed), 'indexing a box does nothing', result=repr(r), place=place)
            w.check(all(os.path.basename(k) == '.index.sqlite' for k in changed) and len(changed) <= 1, 'indexing changed something else', changed=changed, place=place)
            w.seen('step', [op, len(m.boxes)])
        elif op == 'scenery':
            # directories go, and come back as links
            place = os.path.join(root, rng.choice(places))
            how = rng.choice(['remove', 'swap for a link', 'recreate'])
            inner = {p for p in PLACES if '/' in p}
            if os.path.islink(place):
                os.unlink(place)
                os.makedirs(place)
            elif not os.path.isdir(place):
                os.makedirs(place)
            elif how != 'recreate' and not any(p.startswith(os.path.relpath(place, root) + '/') for p in inner) and place not in cwds and os.path.relpath(place, root) not in inner:
                shutil.rmtree(place)
                if how == 'swap for a link':
                    other = os.path.join(root, rng.choice(places))
                    if other != place and os.path.isdir(other) and not os.path.islink(other):
                        os.symlink(other, place)
            w.count('scenery')
            w.seen('step', [op, how, os.path.islink(place), os.path.isdir(place)])
        check_list(step)
    w.sample(dict(boxes=m.boxes, steps=case['steps']))

import errno
import os
import re
import shutil
import sqlite3

from harness import beadfile, faults, gen, peer, snap
from harness.cli import User, zips
from harness.runner import force_rmtree
from harness.world import box_records, input_tree, is_valid_ws, put_bead, ws_inputs, ws_trees

NEEDS_SHIM = True
PROPERTY = 'C33'
LEVEL = 'exploration'
RULE = ('(a) reports: random histories of good and bad commands over boxes, indexes and workspaces that are damaged, protected, locked, removed and repaired meanwhile; after every command '
        'its exit status and everything it printed is compared with what independently read files show to have happened; (b) faults: every command is run with one of its modifying file system '
        'calls failing, and if it claims success then all its effects have to be there as without the fault; non-trivial = distinct (command, form, situation, outcome)')
REQUIRED = {'reports': 6000, 'successes': 2500, 'refusals': 1200, 'warnings': 300, 'paths_named': 500, 'loads_told': 500, 'skips_told': 300, 'index_done': 300, 'index_failed': 40, 'summaries': 100, 'partial_summaries': 15,
            'faults': 900, 'claimed_successes': 100, 'admitted_failures': 400, '#state': 150, '#op': 35}

NICKS = ['a', 'b', 'in put', 'ünï', "q'", '[x]', 'A', 'x.y']


def plan(tier, rng):
    n = 130 if tier == 'quick' else 1500
    cases = [dict(what='reports', boxes=1 + i % 3, indexed=i % 2 == 0, steps=60) for i in range(n)]
    cases[:0] = [dict(what='reports', boxes=3, indexed=i % 2 == 0, steps=40, focus='index') for i in range(8)]
    cases += [dict(what='faults', command=i % len(FAULTY), indexed=i // len(FAULTY) % 2 == 0, points=7 if tier == 'quick' else 40) for i in range(len(FAULTY) * (8 if tier == 'quick' else 30))]
    return cases


def run_case(case, w):
    {'reports': reports, 'faults': faulty}[case['what']](case, w)


class World:
    def __init__(self, w, boxes, indexed):
        self.w, self.rng = w, w.rng
        self.u = User(w)
        self.boxes = {}
        self.names = self.rng.sample(['plain', 'with space', 'ünï', 'x.y', 'g[1]', "o'brien"], 3)
        self.kinds = dict(zip(self.names, self.rng.sample(gen.KINDS, 3)))
        for i in range(boxes):
            self.boxes[f'box{i}'] = self.u.add_box(f'box{i}')
            if indexed:
                self.u.must('box', 'index', '--box', f'box{i}')
        self.clock = gen.gen_instant(self.rng)
        for _ in range(6):
            self.put()
        if indexed:
            self.u.must('box', 'index', '--all')
        self.n = 0
        self.ws = []
        for _ in range(2):
            self.new_ws()
        self.closers = []

    def put(self):
        self.clock += 1_000_000
        name = self.rng.choice(self.names)
        return put_bead(self.rng.choice(list(self.boxes.values())), self.rng, name, kind=self.kinds[name], instant=self.clock,
                        data={'d': self.rng.randbytes(4), 'sub/e': b'e'}, inputs={})

    def fresh(self):
        self.n += 1
        return self.u.path(f'd{self.n}')

    def new_ws(self):
        ws = os.path.join(self.fresh(), self.rng.choice(self.names))
        os.mkdir(os.path.dirname(ws))
        self.u.must('new', ws)
        gen.write_tree(ws, {'src': b's', 'output/o': self.rng.randbytes(5), 'output/p/q': b'q'})
        self.ws.append(ws)
        return ws

    def records(self):
        return [b for n, d in self.boxes.items() if os.path.isdir(d) for b in box_records(d, n)]

    def archives(self):
        return {os.path.join(d, z) for d in self.boxes.values() if os.path.isdir(d) for z in zips(d)}

    def inputs(self, ws):
        '''{nick: (record, data or None)}'''
        return {n: (v, input_tree(ws, n) if os.path.isdir(os.path.join(ws, 'input', n)) else None) for n, v in ws_inputs(ws).items()}


# ---- (a) the world changes

def damage(o):
    a = sorted(o.archives())
    if a:
        p = o.rng.choice(a)
        # structure and metadata remain readable
        import zipfile
        with zipfile.ZipFile(p) as z:
            ms = [(n, z.read(n)) for n in z.namelist()]
        with zipfile.ZipFile(p, 'w') as z:
            for n, b in ms:
                z.writestr(beadfile.raw_info(n, zipfile.ZIP_STORED), b + b'!' if n.startswith('data/') else b)


def remove_archive(o):
    a = sorted(p for p in o.archives() if os.access(os.path.dirname(p), os.W_OK))
    if len(a) > 2:
        os.unlink(o.rng.choice(a))


def protect_box(o):
    d = o.rng.choice(list(o.boxes.values()))
    if os.path.isdir(d):
        os.chmod(d, 0o555)
        o.closers.append(lambda: os.chmod(d, 0o755))


def protect_index(o):
    p = peer.index_path(o.rng.choice(list(o.boxes.values())))
    if os.path.isfile(p):
        os.chmod(p, 0o444)
        o.closers.append(lambda: os.path.exists(p) and os.chmod(p, 0o644))


def damage_index(o):
    p = peer.index_path(o.rng.choice(list(o.boxes.values())))
    if os.path.isfile(p) and os.access(os.path.dirname(p), os.W_OK):
        old = open(p, 'rb').read()
        os.chmod(p, 0o644)
        with open(p, 'wb') as f:
            f.write(o.rng.choice([b'garbage ' * 100, old[:100] + b'\xff' * 5000, old[:3000]]))

        def undo():
            if os.path.isfile(p):
                os.unlink(p)
        o.closers.append(undo)


def index_to_replace(o):
    p = peer.index_path(o.rng.choice(list(o.boxes.values())))
    if os.path.isfile(p) and os.access(os.path.dirname(p), os.W_OK) and o.rng.random() < .6:
        os.unlink(p)
    return p


def index_directory(o):
    p = index_to_replace(o)
    if not os.path.exists(p) and os.access(os.path.dirname(p), os.W_OK):
        os.mkdir(p)
        o.closers.append(lambda: os.rmdir(p))


def foreign_table(o):
    '''the index is a database, but not of beads'''
    p = index_to_replace(o)
    if not os.path.exists(p) and os.access(os.path.dirname(p), os.W_OK):
        c = sqlite3.connect(p)
        c.execute('CREATE TABLE beads (x)')
        c.commit()
        c.close()
        o.closers.append(lambda: os.path.isfile(p) and os.unlink(p))


def hide_box(o):
    d = o.rng.choice(list(o.boxes.values()))
    if os.path.isdir(d) and os.access(os.path.dirname(d), os.W_OK):
        os.rename(d, d + '.away')

        def undo():
            shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else None
            os.rename(d + '.away', d)
        o.closers.append(undo)


def new_bead(o):
    d = list(o.boxes.values())
    if all(os.path.isdir(x) and os.access(x, os.W_OK) for x in d):
        o.put()


def unload_by_hand(o):
    ws = o.rng.choice(o.ws)
    loaded = [n for n, (_, t) in o.inputs(ws).items() if t is not None]
    if loaded:
        peer.unload_input(ws, o.rng.choice(loaded))


INDEX_CHANGES = [protect_box, protect_index, damage_index, index_directory, foreign_table, hide_box] * 2
CHANGES = [damage, remove_archive, protect_box, protect_index, damage_index, index_directory, foreign_table, hide_box, new_bead, new_bead, unload_by_hand, unload_by_hand]


def repair(o):
    while o.closers:
        o.closers.pop()()


# ---- (a) commands and what they say

def flat(text):
    return re.sub(r'\s+', ' ', text)


def outcome(o, r, info):
    '''True: success, False: refusal'''
    w = o.w
    w.count('reports')
    info['result'] = repr(r)
    w.check(r.crash is None, 'internal error', tb=(r.tb or '')[-1500:], **info)
    error = 'ERROR' in r.text or 'Failed' in r.text or 'usage:' in r.err
    if r.code in (0, None):
        if error and info['command'] == 'c_box' and 'box add' in info['result'].replace("', '", ' '):
            w.known('box-add-refused-status', 'an error is told, but the exit status is that of success', **info)
            w.count('refusals')
            return False
        w.check(not error, 'an error is told, but the exit status is that of success', **info)
        w.count('successes')
        if 'WARNING' in r.text:
            w.count('warnings')
        return True
    w.check(error, 'a command failed without saying so', **info)
    w.count('refusals')
    return False


def told(o, ok, what, info, **kw):
    return o.w.check(ok, what, **kw, **info)


def c_save(o, info):
    ws = o.rng.choice(o.ws)
    box = o.rng.choice([*o.boxes] * 2 + ['unknown', None, None])
    before = o.archives()
    r = o.u.bead('save', *([box] if box else []), cwd=o.rng.choice([ws, ws, o.u.root]))
    ok = outcome(o, r, info)
    new = sorted(o.archives() - before)
    told(o, ok == (len(new) == 1) and len(new) <= 1, 'save did something else than it told', info, new=new, success=ok)
    if ok and new:
        bf = beadfile.BeadFile(new[0])
        m = re.search(r'stored bead at (.*)\.\n', r.text)
        told(o, m and m.group(1) == new[0], 'another file is told to be the saved bead', info, new=new[0])
        told(o, not bf.problems and bf.data == ws_trees(ws)[1], 'success is told, but the bead is not good', info, problems=bf.problems)
        told(o, not box or os.path.dirname(new[0]) == o.boxes[box], 'saved elsewhere', info)
        o.w.count('paths_named')
    return 'box' if box else '-'


def c_new(o, info):
    d = o.fresh()
    form = o.rng.choice(['free', 'taken', 'file', 'in file', 'bad'])
    ws = os.path.join(d, 'n w')
    os.mkdir(d)
    if form == 'taken':
        ws = o.rng.choice(o.ws)
    elif form == 'file':
        open(ws, 'w').close()
    elif form == 'in file':
        open(ws, 'w').close()
        ws = os.path.join(ws, 'x')
    elif form == 'bad':
        ws = os.path.join(d, 'a__b')
    was = os.path.exists(ws)
    r = o.u.bead('new', ws)
    ok = outcome(o, r, info)
    told(o, ok == (is_valid_ws(ws) and not was), 'new did something else than it told', info)
    if ok:
        told(o, os.path.basename(ws) in r.text, 'the new workspace is not named', info)
        o.w.count('paths_named')
    return form


def c_edit(o, info):
    rs = o.records()
    d = o.fresh()
    os.mkdir(d)
    ref = o.rng.choice([*(b.name for b in rs), *(b.path for b in rs), 'unknown'])
    ws = os.path.join(d, 'e')
    if o.rng.random() < .15:
        ws = o.rng.choice(o.ws)
    was = os.path.exists(ws)
    r = o.u.bead('edit', ref, ws)
    ok = outcome(o, r, info)
    told(o, ok == (is_valid_ws(ws) and not was), 'edit did something else than it told', info)
    if ok:
        told(o, f'into {ws}' in r.text, 'the workspace is not named', info)
        used = re.search(r'Verifying archive (.*) \.\.\. OK', r.text)
        if told(o, used and os.path.isfile(used.group(1)), 'the archive used is not named', info):
            bf = beadfile.BeadFile(used.group(1))
            told(o, ws_trees(ws)[0] == bf.code and ref in (bf.name, bf.path), 'another archive is named', info)
        told(o, ('not loaded' in r.text) == bool(ws_inputs(ws)), 'it is not told truthfully if there are inputs to load', info)
        if len(o.ws) < 5:
            gen.write_tree(ws, {'output/o': b'o'})
            o.ws.append(ws)
        o.w.count('paths_named')
    return 'file' if '/' in ref else 'name'


def c_discard(o, info):
    if len(o.ws) < 3:
        return None
    ws = o.rng.choice(o.ws)
    form = o.rng.choice(['ws', 'ws', 'no', 'not a ws', 'file'])
    target = dict(zip(['ws', 'no', 'not a ws', 'file'], [ws, o.u.path('nothing'), os.path.join(ws, 'output'), os.path.join(ws, 'src')]))[form]
    force = ['--force'] * (o.rng.random() < .3 and form != 'not a ws')
    was = os.path.lexists(target)
    r = o.u.bead('discard', *force, target)
    ok = outcome(o, r, info)
    told(o, ok == (was and not os.path.lexists(target)), 'discard did something else than it told', info)
    if ok:
        told(o, target in r.text, 'what was deleted is not named', info)
    o.ws = [x for x in o.ws if os.path.isdir(x)]
    return form


def c_add(o, info):
    ws, rs = o.rng.choice(o.ws), o.records()
    nick = o.rng.choice(NICKS + ['a__b', 'a/b'])
    ref = o.rng.choice([*(b.name for b in rs), *(b.path for b in rs), 'unknown'])
    before = o.inputs(ws)
    r = o.u.bead('input', 'add', nick, ref, cwd=ws)
    ok = outcome(o, r, info)
    after = o.inputs(ws)
    done = after.get(nick) != before.get(nick) or nick in before and f'Loading new data to {nick} ... Done' in r.text
    claimed = ok and 'WARNING' not in r.text
    told(o, claimed == bool(done), 'input add did something else than it told', info, before=before.get(nick), after=after.get(nick))
    if claimed and nick in after:
        used = re.search(r'Verifying archive (.*) \.\.\. OK', r.text)
        if told(o, used and os.path.isfile(used.group(1)), 'the archive used is not named', info):
            bf = beadfile.BeadFile(used.group(1))
            told(o, after[nick] == ((bf.kind, bf.content_id, bf.freeze_time_str), bf.data), 'another bead is named as loaded', info)
        o.w.count('loads_told')
    elif ok:
        told(o, any(nick in l for l in r.err.splitlines() if 'WARNING' in l), 'the warning does not name the input', info)
    told(o, {k: v for k, v in before.items() if k != nick} == {k: v for k, v in after.items() if k != nick}, 'another input changed', info)
    return 'new' if nick not in before else 'again'


def line_of(text, *words):
    return any(all(x in l for x in words) for l in text.splitlines())


def each_input(o, r, info, before, after, asked, verb):
    '''what is told about every input is what happened to it'''
    for n in asked:
        if n not in before:
            continue
        (old, was), (new, now) = before[n], after[n]
        about = re.compile(rf'(^|[ "]){re.escape(n)}([ ":]|$)')
        loaded = line_of(r.out, f'to {n} ...', 'Done')
        warned = any('WARNING' in l and about.search(l) and 'different kind' not in l for l in r.err.splitlines())
        skipped = any('kipping' in l and about.search(l) for l in r.out.splitlines())
        unloaded = line_of(r.out, f'Unloading {n} ...', 'Done')
        i = dict(info, nick=n, old=repr((old, was))[:300], new=repr((new, now))[:300])
        told(o, (loaded + warned + skipped + unloaded) == 1, 'not exactly one thing is told about an input', i, loaded=loaded, warned=warned, skipped=skipped, unloaded=unloaded)
        if loaded:
            told(o, now is not None and (was is None or (old, was) != (new, now) or verb == 'update'), 'an input is told to be loaded, but it was not', i)
            o.w.count('loads_told')
        elif unloaded:
            told(o, was is not None and now is None and new == old, 'an input is told to be unloaded, but it was not', i)
            o.w.count('loads_told')
        else:
            told(o, (old, was) == (new, now), 'an input is told to be left alone, but it was not', i)
            o.w.count('skips_told')
            if skipped and verb == 'load':
                told(o, was is not None, 'an input is skipped as loaded, but it is not', i)
            if skipped and verb == 'unload':
                told(o, was is None, 'an input is skipped as not loaded, but it is', i)
            if skipped and verb == 'update':
                told(o, was is not None, 'an input is skipped, but it is not loaded', i)
            if warned and verb == 'load':
                told(o, was is None, 'it is warned about a loaded input', i)
    rest = set(before) - set(asked)
    told(o, all(before[n] == after.get(n) for n in rest), 'another input changed', info)


def c_inputs(o, info):
    ws = o.rng.choice(o.ws)
    before = o.inputs(ws)
    verb = o.rng.choice(['load', 'load', 'unload', 'update', 'update'])
    nick = o.rng.choice([*before, *before, None, None, 'unknown'])
    r = o.u.bead('input', verb, *([nick] if nick else []), cwd=ws)
    ok = outcome(o, r, info)
    after = o.inputs(ws)
    if ok:
        told(o, set(before) == set(after), 'inputs are lost or new', info)
        each_input(o, r, info, before, after, [nick] if nick else list(before), verb)
        if verb == 'update' and not nick and 'WARNING' in r.err.replace('different kind', ''):
            bad = [l for l in r.err.splitlines() if 'WARNING' in l and 'different kind' not in l]
            told(o, not bad or 'up to date' not in r.out, 'inputs are told to be up to date after a warning', info)
        if verb == 'update' and not nick and not [l for l in r.err.splitlines() if 'WARNING' in l]:
            told(o, 'up to date' in r.out, 'it is not told that inputs are up to date', info)
    elif nick:
        told(o, before == after, 'a refused command changed inputs', info)
    return f'{verb} {"one" if nick else "all"}'


def c_delete(o, info):
    ws = o.rng.choice(o.ws)
    before = o.inputs(ws)
    nick = o.rng.choice([*before, 'unknown'])
    r = o.u.bead('input', 'delete', nick, cwd=ws)
    ok = outcome(o, r, info)
    after = o.inputs(ws)
    told(o, ok == (nick in before and nick not in after), 'delete did something else than it told', info)
    told(o, not ok or nick in r.out, 'the deleted input is not named', info)
    told(o, not ok or not os.path.lexists(os.path.join(ws, 'input', nick)), 'data of a deleted input remained', info)
    return '-'


def c_box(o, info):
    before = peer.read_registry(o.u.registry_file)
    verb = o.rng.choice(['add', 'add', 'forget', 'list'])
    if verb == 'add':
        name = o.rng.choice(['extra', *o.boxes])
        d = o.rng.choice([o.u.path('nothing'), *o.boxes.values(), o.u.mkdir('extra-dir'), os.path.join(o.ws[0], 'src')])
        r = o.u.bead('box', 'add', name, d)
        ok = outcome(o, r, info)
        after = peer.read_registry(o.u.registry_file)
        told(o, ok == (after == before + [(name, d)]) and (ok or after == before), 'box add did something else than it told', info, before=before, after=after)
        if ok:
            o.u.must('box', 'forget', name)
    elif verb == 'forget':
        name = o.rng.choice(['unknown', ''])
        r = o.u.bead('box', 'forget', name)
        ok = outcome(o, r, info)
        told(o, 'WARNING' in r.text or not ok, 'an unknown box is forgotten', info)
        told(o, peer.read_registry(o.u.registry_file) == before, 'a box was forgotten', info)
    else:
        r = o.u.bead('box', 'list')
        outcome(o, r, info)
        told(o, [l for l in r.out.splitlines() if l.startswith(('box', 'extra'))] == [f'{n}: {d}' for n, d in before], 'another list of boxes is told', info, boxes=before)
    return verb


def complete(d):
    '''the index of a box is about its files'''
    try:
        return sorted(peer.index_rows(d)) == sorted({r[:2]: r for r in map(peer.row_of, box_records(d))}.values())
    except sqlite3.Error:
        return False


def good_only(d):
    return all(not b.problems for b in box_records(d))


def c_index(o, info):
    verb = o.rng.choice(['index', 'reindex'])
    form = o.rng.choice(['box', 'box', 'dir', 'all', 'all', 'none', 'unknown', 'nothing'])
    name = o.rng.choice(list(o.boxes))
    args, asked = {
        'box': (['--box', name], [name]), 'dir': (['--dir', o.boxes[name]], [name]), 'all': (['--all'], [*o.boxes]), 'none': ([], [*o.boxes] if len(o.boxes) == 1 else []),
        'unknown': (['--box', 'unknown'], []), 'nothing': (['--dir', o.u.path('nothing')], [])}[form]
    before = {n: snap.snapshot(d) for n, d in o.boxes.items() if os.path.isdir(d)}
    r = o.u.bead('box', verb, *args)
    ok = outcome(o, r, info)
    parts = re.split(r'(?=^(?:Indexing|Rebuilding index for) (?:box "|directory ))', r.out, flags=re.M)[1:]
    info = dict(info, verb=verb, form=form)
    if not asked:
        told(o, not ok, 'nothing was indexed, but success is told', info)
    for p in parts:
        mine = [n for n in asked if o.boxes[n] in p]
        if not told(o, len(mine) == 1 and ('Done' in p) != ('Failed' in p), 'not exactly one outcome is told about a box', info, part=p):
            continue
        d = o.boxes[mine[0]]
        if 'Done' in p:
            if os.path.isdir(d) and good_only(d):
                told(o, complete(d), 'an index is told to be done, but it is not', info, box=mine[0],
                     there=os.path.exists(peer.index_path(d)), files=len(box_records(d)))
            else:
                told(o, os.path.isdir(d), 'a missing box is told to be indexed', info)
            o.w.count('index_done')
        else:
            told(o, not ok, 'an index failed, but success is told', info)
            o.w.count('index_failed')
    done = sum('Done' in p for p in parts)
    if asked and (ok or parts):
        told(o, len(parts) == len(asked), 'not every box is told about', info, told=len(parts), asked=len(asked))
        told(o, ok == (done == len(asked)), 'the exit status does not tell if all boxes were indexed', info, done=done)
    if form == 'all':
        m = re.search(r'(\d+)/(\d+)', r.out.splitlines()[-1])
        told(o, m and m.groups() == (str(done), str(len(asked))), 'another number of boxes is told', info, done=done)
        o.w.count('summaries')
        if done < len(asked):
            o.w.count('partial_summaries')
    for n, d in o.boxes.items():
        if n not in asked and n in before:
            told(o, snap.snapshot(d) == before[n], 'another box was indexed', info, box=n)
    return f'{verb} {form}'


def c_web(o, info):
    f = o.fresh()
    if o.rng.random() < .2:
        f = os.path.join(f, 'nothing')
    r = o.u.bead('web', 'save', f)
    ok = outcome(o, r, info)
    told(o, ok == os.path.isfile(f), 'web did something else than it told', info)
    if ok:
        entries = [x for x in peer.read_web(f) if x[5] != 'PHANTOM']
        m = re.search(r'Loaded (\d+) beads', r.out)
        # the same bead might be in more boxes
        told(o, m and int(m.group(1)) >= len(entries) and (int(m.group(1)) > 0) == (len(entries) > 0), 'another number of beads is told', info, saved=len(entries))
    return '-'


def c_status(o, info):
    ws = o.rng.choice(o.ws)
    r = o.u.bead('status', cwd=ws)
    if not outcome(o, r, info):
        return 'refused'
    told(o, f'Bead Name: {os.path.basename(ws)}' in r.out, 'workspace is not named', info)
    for n, (v, data) in o.inputs(ws).items():
        at = r.out.find(f'input/{n}\n')
        part = [*r.out[at:].split('input/'), ''][1]
        told(o, at >= 0 and ('NOT LOADED' in part) == (data is None), 'another status of an input is told', info, nick=n)
    return '-'


COMMANDS = [c_save, c_save, c_new, c_edit, c_edit, c_discard, c_add, c_add, c_add, c_inputs, c_inputs, c_inputs, c_inputs, c_inputs, c_delete, c_box, c_index, c_index, c_index, c_web, c_status]


def reports(case, w):
    rng = w.rng
    o = World(w, case['boxes'], case['indexed'])
    situation = []
    try:
        for _ in range(case['steps']):
            if rng.random() < .35:
                c = rng.choice(CHANGES + INDEX_CHANGES if case.get('focus') else CHANGES)
                c(o)
                situation.append(c.__name__)
            elif rng.random() < .15 and o.closers:
                repair(o)
                situation = ['repaired']
            f = rng.choice(COMMANDS + [c_index] * 20 if case.get('focus') else COMMANDS)
            if f is c_index and situation and 'damage' in situation and rng.random() < .5:
                continue
            info = dict(command=f.__name__, situation=situation[-4:])
            form = f(o, info)
            if form is None:
                continue
            w.seen('op', [f.__name__, form])
            w.seen('state', [f.__name__, form, situation[-1:], case['indexed']])
    finally:
        repair(o)


# ---- (b) success under faults is a success

FAULTY = [
    ['save'], ['new'], ['edit'], ['discard'], ['input', 'add'], ['input', 'load'], ['input', 'load', 'one'], ['input', 'unload'], ['input', 'update'], ['input', 'delete'],
    ['box', 'add'], ['box', 'forget'], ['box', 'index'], ['box', 'index', 'new'], ['box', 'reindex'], ['web', 'save'], ['web', 'dot'], ['box', 'index', 'gone'],
]


def state(o, argv, ws, target):
    '''what the effects of the command are'''
    d = o.boxes['box0']
    s = dict(registry=peer.read_registry(o.u.registry_file) if os.path.exists(o.u.registry_file) else None)
    s['inputs'] = repr(sorted(o.inputs(ws).items())) if is_valid_ws(ws) else None
    s['ws'] = repr(sorted(ws_trees(ws)[0].items())) if is_valid_ws(ws) else os.path.lexists(ws)
    s['archives'] = sorted((b.name, b.kind, repr(sorted(b.code.items())), repr(sorted(b.data.items())), not b.problems) for b in box_records(d))
    if argv[:2] in (['box', 'index'], ['box', 'reindex']):
        s['index'] = complete(d)
    if argv[0] == 'edit':
        s['target'] = is_valid_ws(target) and (repr(ws_trees(target)), ws_inputs(target))
    elif argv[0] == 'new':
        s['target'] = is_valid_ws(target) and ws_inputs(target)
    elif argv[0] == 'web':
        s['target'] = open(target, 'rb').read() if os.path.isfile(target) else None
    return s


def faulty(case, w):
    rng = w.rng
    o = World(w, 1, case['indexed'])
    what = FAULTY[case['command']]
    ws = o.ws[0]
    target = o.u.path('target')
    for n in ('a', 'b'):
        o.u.must('input', 'add', n, rng.choice(o.records()).name, cwd=ws)
    name = next(b.name for b in o.records())
    argv, cwd = list(what), ws
    if what == ['new']:
        argv, cwd = ['new', target], None
    elif what == ['edit']:
        argv, cwd = ['edit', name, target], None
    elif what == ['discard']:
        argv, cwd = ['discard', ws], None
    elif what == ['input', 'add']:
        argv = ['input', 'add', 'c', name]
    elif what[:2] == ['input', 'load']:
        for n in ('a', 'b'):
            o.u.must('input', 'unload', n, cwd=ws)
        argv = ['input', 'load'] + ['a'] * (len(what) == 3)
    elif what == ['input', 'update']:
        o.u.must('input', 'unload', 'a', cwd=ws)
        for _ in range(3):
            o.put()
        if case['indexed']:
            o.u.must('box', 'index')
    elif what == ['input', 'delete']:
        argv = ['input', 'delete', 'b']
    elif what == ['box', 'add']:
        argv, cwd = ['box', 'add', 'extra', o.u.mkdir('extra')], None
    elif what == ['box', 'forget']:
        argv = ['box', 'forget', 'box0']
    elif what[0] == 'box':
        for _ in range(3 if what[2:] == ['new'] else 0):
            o.put()
        if what[2:] == ['gone']:
            for p in sorted(o.archives())[:3]:
                os.unlink(p)
        argv = what[:2] + rng.choice([['--box', 'box0'], ['--all'], ['--dir', o.boxes['box0']], []])
    elif what == ['web', 'save']:
        argv, cwd = ['web', 'save', target], None
    elif what == ['web', 'dot']:
        argv, cwd = ['web', 'dot', target], None
    master = os.path.join(w.dir, 'master')
    faults.clone(o.u.root, master)

    def go(**kw):
        force_rmtree(o.u.root)
        faults.clone(master, o.u.root)
        return faults.command(o.u, argv, cwd=cwd, scope=o.u.root, **kw)
    first = go()
    if not w.check(first.ok, 'a valid command failed', argv=argv, result=repr(first)):
        return
    want = state(o, what, ws, target)
    for at in faults.choose(rng, first.ops, case['points']):
        how, mode, err = rng.choice([('error', faults.FAIL, errno.EIO), ('full', faults.FAIL_ON, errno.ENOSPC), ('no permission', faults.FAIL, errno.EACCES), ('full then free', faults.FAIL, errno.ENOSPC), ('short', faults.SHORT_FAIL, errno.ENOSPC)])
        out = go(mode=mode, n=at, err=err)
        w.count('faults')
        r = out.result
        if not w.check(r is not None, 'no result', argv=argv, how=how, at=at, out=repr(out)):
            continue
        info = dict(argv=argv, how=how, at=at, of=first.ops, indexed=case['indexed'], result=repr(r), tb=(r.tb or '')[-900:])
        if r.code in (0, None) and r.crash is None:
            w.check('ERROR' not in r.text and 'Failed' not in r.text, 'an error is told, but the exit status is that of success', **info)
            if 'WARNING' not in r.text:
                got = state(o, what, ws, target)
                w.check(got == want, 'success is told, but not everything was done', differ=[(k, repr(got[k])[:200], repr(want[k])[:200]) for k in want if got[k] != want[k]], **info)
                w.count('claimed_successes')
        else:
            w.check(r.crash is not None or 'ERROR' in r.text or 'Failed' in r.text, 'a command failed without saying so', **info)
            w.count('admitted_failures')
        w.seen('state', [what, how, r.code == 0, case['indexed']])

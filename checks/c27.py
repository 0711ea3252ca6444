import os
import re
import shutil

from harness import beadfile, gen, snap
from harness.cli import User
from harness.query import NAME_FAMILIES
from harness.world import box_records, put_bead, random_inputs, ws_inputs, ws_meta

PROPERTY = 'C27'
LEVEL = 'exploration'
RULE = ('one case = a random history of input commands, saves, and changes of boxes (new beads, copies, renamed copies, removed beads, truncated archives, boxes moved away and back, '
        'boxes forgotten), after each step the complete output of status (plain and verbose, from any directory) is parsed and compared with the state read '
        'independently from the workspace and the archives; everything in the world is compared before and after; '
        'non-trivial = distinct (input state, name known, candidates by box) tuples')
REQUIRED = {'status': 1800, 'inputs_reported': 5000, 'loaded': 1200, 'not_loaded': 1500, 'named': 2500, 'missing': 500, 'exact': 1500, 'kind_match': 1200,
            'no_candidates': 120, 'verbose': 700, 'no_inputs': 40, 'invalid': 40, 'away': 60, '#report': 100, 'removed_by_user': 20}

BOX_NAMES = [['box0', 'box1', 'box2', 'box3'], ['a b', '#', 'x # y', '(kind match)'], ['ünï', 'home', '-r', '*'], ['~', '\t', "q'", '日本']]
NICKS = ['a', 'b', 'c', 'in put', 'ünï', "q'", '.h', '[x]', '*', '-d', 'x.zip', 'A', '日本', '\tBead:', 'Status:', '~', 'a\\b', '{}', '...', 'in # x', 'ab', 'a2', 'a10', 'n' * 255]


def plan(tier, rng):
    n = 100 if tier == 'quick' else 2000
    return [dict(boxes=i % 4 + 1, indexed=[0, .5, 1][i // 4 % 3], steps=44) for i in range(n)]


class World:
    def __init__(self, w, case):
        self.w, self.rng = w, w.rng
        rng = w.rng
        self.u = User(w)
        self.boxes = {}
        for i, n in enumerate(rng.choice(BOX_NAMES)[:case['boxes']]):
            d = self.u.mkdir(f'dir{i}')
            self.u.must('box', 'add', '--', n, d)
            self.boxes[n] = d
        self.away = {}
        self.names = rng.choice([f for f in NAME_FAMILIES if not any('\n' in n or n == '--' for n in f)])[:4]
        self.kinds = rng.sample(gen.KINDS, 3)
        self.start = gen.gen_instant(rng)
        self.step = rng.choice([1, 1_000_000, 3600 * 1_000_000])
        for _ in range(rng.choice([6, 10, 16])):
            self.put()
        for d in self.boxes.values():
            if rng.random() < case['indexed']:
                self.u.must('box', 'index', '--dir', d)
        self.ws = self.u.path(rng.choice(['ws', 'work space', 'ünï', '-w']))
        self.u.must('new', '--', self.ws)
        self.nicks = rng.sample(NICKS, 6)

    def put(self):
        rng = self.rng
        d = rng.choice([d for d in self.boxes.values() if d not in self.away] or [None])
        if d is None:
            return
        t = self.start - self.step * rng.randrange(10)
        name, offset = rng.choice(self.names), rng.choice(gen.OFFSETS)
        if os.path.exists(os.path.join(d, f'{name}_{beadfile.ts_from_instant(t, offset)}.zip')):
            return
        put_bead(d, rng, name, instant=t, offset=offset, kind=rng.choice(self.kinds), code={'c': rng.randbytes(6)}, data={'d': rng.randbytes(6)})

    def present(self):
        return {n: d for n, d in self.boxes.items() if d not in self.away}

    def files(self):
        return [os.path.join(d, n) for d in self.present().values() for n in sorted(os.listdir(d)) if n.endswith('.zip')]

    def environment(self):
        rng, u = self.rng, self.u
        k = rng.choice(['put', 'put', 'remove', 'remove', 'remove', 'copy', 'rename', 'truncated', 'away', 'back', 'forget', 'unpack'])
        fs = self.files()
        if k == 'put':
            self.put()
        elif k == 'remove' and len(fs) > 2:
            os.unlink(rng.choice(fs))
        elif k in ('copy', 'rename', 'truncated') and fs:
            p = rng.choice(fs)
            fn = os.path.basename(p) if k == 'copy' else f'{rng.choice(self.names)}_{beadfile.ts_from_instant(self.start + rng.randrange(5))}.zip'
            t = os.path.join(rng.choice(list(self.present().values())), fn)
            if not os.path.exists(t):
                shutil.copy(p, t)
                if k == 'truncated':
                    with open(t, 'r+b') as f:
                        f.truncate(os.path.getsize(p) // 2)
        elif k == 'away' and len(self.present()) > 1:
            d = rng.choice(list(self.present().values()))
            os.rename(d, d + '-away')
            self.away[d] = d + '-away'
        elif k == 'back' and self.away:
            d = rng.choice(list(self.away))
            os.rename(self.away.pop(d), d)
        elif k == 'forget' and len(self.boxes) > 1:
            n = rng.choice(list(self.boxes))
            if self.boxes[n] not in self.away:
                u.must('box', 'forget', '--', n)
                d = self.boxes.pop(n)
                if rng.random() < .7:
                    u.must('box', 'add', '--', n, d)
                    self.boxes[n] = d
        elif k == 'unpack':
            # the user removes data of an input
            loaded = [n for n in ws_inputs(self.ws) if os.path.isdir(os.path.join(self.ws, 'input', n))]
            if loaded:
                inputs = os.path.join(self.ws, 'input')
                mode = os.stat(inputs).st_mode
                os.chmod(inputs, 0o755)
                p = os.path.join(inputs, rng.choice(loaded))
                for root, ds, _ in os.walk(p):
                    os.chmod(root, 0o755)
                shutil.rmtree(p)
                os.chmod(inputs, mode & 0o7777)
                self.w.count('removed_by_user')
        for d in self.present().values():
            if os.path.exists(os.path.join(d, '.index.sqlite')):
                u.must('box', 'index', '--dir', d)

    def command(self):
        rng, u, ws = self.rng, self.u, self.ws
        known = list(ws_inputs(ws))
        nick = rng.choice(known) if known and rng.random() < .6 else rng.choice(self.nicks)
        fs = [b.path for n, d in self.present().items() for b in box_records(d, n)]
        k = rng.choice(['add', 'add', 'add', 'add', 'add', 'add', 'load', 'unload', 'delete', 'update', 'prev', 'next', 'file', 'save', 'load all', 'unload all'])
        if k in ('add', 'file') and fs:
            u.bead('input', 'add' if k == 'add' else 'update', '--', nick, rng.choice(fs), cwd=ws)
        elif k in ('load', 'unload', 'delete', 'update'):
            u.bead('input', k, '--', nick, cwd=ws)
        elif k in ('prev', 'next'):
            u.bead('input', 'update', '--' + k, '--', nick, cwd=ws)
        elif k == 'save' and self.present():
            u.must('save', '--', rng.choice(list(self.present())), cwd=ws)
        elif k.endswith(' all'):
            u.bead('input', k.split()[0], cwd=ws)


def run_case(case, w):
    rng = w.rng
    x = World(w, case)
    report(w, rng, x)
    for step in range(case['steps']):
        if rng.random() < .4:
            x.environment()
        else:
            x.command()
        report(w, rng, x)
    invalid(w, rng, x)


def report(w, rng, x):
    u, ws = x.u, x.ws
    verbose = rng.random() < .4
    flags = rng.choice([['-v'], ['--verbose']]) if verbose else []
    where = rng.choice(['root', 'in', 'temp', 'option', 'option'])
    cwd = dict(root=ws, temp=os.path.join(ws, 'temp')).get(where, u.root)
    cwd = os.path.join(ws, 'input') if where == 'in' else cwd
    args = [rng.choice(['-w', '--workspace']), ws] if where == 'option' else []
    if args and os.path.basename(ws).startswith('-') and rng.random() < .3:
        args = ['--workspace=' + os.path.basename(ws)]
    before = snap.snapshot(u.root, mtimes=True)
    r = u.must('status', *flags, *args, cwd=cwd)
    after = snap.snapshot(u.root, mtimes=True)
    w.check(before == after, 'asking for the status changed something', diff=snap.diff(before, after))
    w.count('status')
    if verbose:
        w.count('verbose')
    if x.away:
        w.count('away')
    out = r.out
    info = dict(out=out[-3000:], err=r.err, argv=r.argv)
    w.check(f'Bead Name: {os.path.basename(ws)}\n' in out, 'name of the workspace is not reported', **info)
    w.check((f'Bead kind: {ws_meta(ws)["kind"]}\n' in out) == verbose, 'kind of the workspace', verbose=verbose, **info)
    inputs = ws_inputs(ws)
    if not inputs:
        w.check('No inputs defined' in out and '\ninput/' not in out, 'inputs reported where there are none', **info)
        w.count('no_inputs')
        return
    w.check('No inputs defined' not in out, 'inputs are denied', **info)
    blocks = re.split(r'^input/', out, flags=re.M)[1:]
    reported = [b.split('\n', 1)[0] for b in blocks]
    w.check(sorted(reported) == sorted(inputs), 'inputs are not reported exactly once', reported=reported, inputs=sorted(inputs), **info)
    records = {n: box_records(d, n) for n, d in x.present().items()}
    unloaded = False
    for nick, block in zip(reported, blocks):
        kind, cid, ts = inputs[nick]
        lines = block.split('\n')[1:]
        w.count('inputs_reported')

        def field(label):
            v = [l[len(label) + 3:].strip(' ') for l in lines if l.startswith(f'\t{label}: ')]
            return v[0] if len(v) == 1 else v
        loaded = os.path.isdir(os.path.join(ws, 'input', nick))
        unloaded |= not loaded
        w.count('loaded' if loaded else 'not_loaded')
        w.check(field('Status') == ('loaded' if loaded else '**NOT LOADED**'), 'presence of data is not true', nick=nick, loaded=loaded, **info)
        # the name
        names = {b.name for rs in records.values() for b in rs if b.content_id == cid}
        bead = field('Bead')
        w.check(isinstance(bead, str) and bead.endswith(f'# {ts}'), 'recorded version is not reported', nick=nick, **info)
        bead = next(l for l in lines if l.startswith('\tBead:'))[len('\tBead:        '):-len(f' # {ts}')]
        w.check(bead in names if names else bead == '**MISSING**', 'name of the bead of the input is not true', nick=nick, reported_name=bead, names=sorted(names), **info)
        w.count('named' if names else 'missing')
        if verbose:
            w.check(field('Kind') == kind.strip(' ') and field('Content id') == cid, 'recorded reference', nick=nick, **info)
        # candidates
        candidates = {}
        for l in lines:
            m = re.fullmatch(r'\t ([*~]) -r (.*) # (\d{8}T\d{12}[-+]\d{4})( \(kind match\))?', l)
            if m:
                w.check(m.group(2) not in candidates, 'box reported twice', nick=nick, **info)
                w.check((m.group(1) == '~') == bool(m.group(4)), 'mixed marks', nick=nick, line=l, **info)
                candidates[m.group(2)] = (m.group(1) == '*', m.group(3))
        limit = beadfile.instant(ts)
        expected = {}
        for n, rs in records.items():
            rs = [b for b in rs if b.kind == kind and b.instant <= limit]
            if rs:
                newest = max(b.instant for b in rs)
                expected[n] = {(b.content_id == cid, b.freeze_time_str) for b in rs if b.instant == newest}
        w.check(set(candidates) == set(expected), 'boxes with suitable versions', nick=nick, reported_boxes=sorted(candidates), expected=sorted(expected), **info)
        for n, c in candidates.items():
            w.check(c in expected[n], 'version of the box is not the newest suitable one, or is marked wrong', nick=nick, box=n, reported_version=c, expected=sorted(expected[n]), **info)
            w.count('exact' if c[0] else 'kind_match')
        w.check(('no candidates' in block) == (not expected), 'lack of candidates', nick=nick, **info)
        if not expected:
            w.count('no_candidates')
        w.seen('report', [loaded, len(names), sorted(c[0] for c in candidates.values()), len(x.away), verbose])
    w.check(('Some inputs are currently not loaded' in out) == unloaded, 'reminder of inputs without data', **info)
    w.sample(dict(inputs=len(inputs), boxes=len(records), beads=sum(map(len, records.values()))))


def invalid(w, rng, x):
    u, ws = x.u, x.ws
    for part in rng.sample(['output', 'temp', '.bead-meta/bead'], 2):
        p = os.path.join(ws, part)
        os.rename(p, p + '-away')
        for target in (ws, u.path('nowhere'), u.home):
            before = snap.snapshot(u.root, mtimes=True)
            r = u.bead('status', '-w', target)
            w.check(r.crash is None, 'status crashed', tb=r.tb)
            w.check('Bead Name' not in r.out and 'input/' not in r.out, 'status of what is not a workspace', out=r.out)
            w.check('nvalid' in r.text or 'not a valid' in r.text, 'invalid workspace is not told', out=r.out, err=r.err)
            w.check(before == snap.snapshot(u.root, mtimes=True), 'status changed something')
            w.count('invalid')
        os.rename(p + '-away', p)
    u.must('status', '-w', ws)

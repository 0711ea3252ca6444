import errno
import json
import os
import signal

from bead.box import search
from bead.ziparchive import ZipArchive

from harness import beadfile, faults, gen, snap
from harness.cli import User, zips
from harness.query import boxes_of, key
from harness.runner import force_rmtree
from harness.world import put_bead, random_inputs, ws_trees, ws_inputs, ws_meta

PROPERTY = 'C12'
NEEDS_SHIM = True
LEVEL = 'fault_enumeration'
RULE = ('one case = one workspace and box (plain or indexed), saved once for every selected file system call of the save with that call being '
        'killed before, killed in the middle of the write, failed, failed for good (full disk), cut short, interrupted, or with a concurrent change '
        'of the files happening at it; non-trivial = distinct (kind of fault, system call, outcome) triples and distinct points')
REQUIRED = {'saves': 1500, 'killed': 350, 'failed': 250, 'interrupted': 120, 'raced': 120, 'success': 100, 'later_saves': 300, '#point': 90}
ASSUMPTIONS = ['a crash is the end of the process (kill -9), not a loss of power: what was written by finished system calls is there']

LIMIT = {'quick': 26, 'thorough': 400}


def plan(tier, rng):
    n = 24 if tier == 'quick' else 200
    return [dict(shape=i % 6, indexed=i % 2 == 1, named=i % 3 == 0, points=LIMIT[tier]) for i in range(n)]


class World:
    def __init__(self, case, w):
        self.w, rng = w, w.rng
        self.root = os.path.join(w.dir, 'world')
        self.master = os.path.join(w.dir, 'master')
        self.u = User(w, 'world')
        self.box = self.u.add_box('box')
        self.old = []
        for i in range(rng.choice([0, 1, 3])):
            self.old.append(put_bead(self.box, rng, rng.choice(['ws', 'other', 'x'])))
        if case['indexed']:
            self.u.must('box', 'index', '--box', 'box')
        self.ws = self.u.path('ws')
        self.u.must('new', self.ws)
        shape = case['shape']
        code = {'src': b'source', 'lib/x.py': b'x' * 300}
        data = {'out': b'output', 'd/out2': b''}
        if shape == 1:
            data['big'] = rng.randbytes(300_000)
            code['zeros'] = bytes(500_000)
        elif shape == 2:
            data = {f'f{i}': b'%d' % i for i in range(40)}
        elif shape == 3:
            code, data = {}, {}
        elif shape == 4:
            code.update(gen.gen_tree(rng, n=6, top_reserved=gen.TOP_RESERVED))
        elif shape == 5 and self.old:
            self.u.must('input', 'add', 'in', self.old[0].path, cwd=self.ws)
        gen.write_tree(self.ws, code)
        gen.write_tree(os.path.join(self.ws, 'output'), data)
        gen.write_tree(os.path.join(self.ws, 'temp'), {'t': b't'})
        self.argv = ['save'] + (['box'] if case['named'] else []) + ['-w', self.ws]
        self.code, self.data = ws_trees(self.ws)
        self.meta = ws_meta(self.ws)
        self.before = zips(self.box)
        self.box_before = snap.snapshot(self.box)
        self.ws_before = snap.snapshot(self.ws, mtimes=True)
        self.registry = open(self.u.registry_file, 'rb').read()
        faults.clone(self.root, self.master)

    def reset(self):
        force_rmtree(self.root)
        faults.clone(self.master, self.root)

    def new_files(self):
        return [n for n in zips(self.box) if n not in self.before]

    def check_bead(self, path, changed=(), **info):
        '''is it a complete and correct bead?'''
        w = self.w
        try:
            bf = beadfile.BeadFile(path)
            a = ZipArchive(path)
            a.validate()
        except Exception as e:
            w.violate('saved bead can not be read or verified', error=repr(e), **info)
            return None
        finally:
            faults_close()
        w.check(not bf.problems, 'saved bead is inconsistent', problems=bf.problems, **info)
        for want, got, area in ((self.code, bf.code, ''), (self.data, bf.data, 'output/')):
            a = {n: b for n, b in want.items() if area + n not in changed}
            b = {n: b for n, b in got.items() if area + n not in changed}
            w.check(a == b, 'saved bead is not complete', diff=snap.diff_files(a, b), **info)
        w.check(bf.kind == self.meta['kind'] and bf.name == 'ws' and bf.inputs == self.meta['inputs'], 'saved bead has wrong metadata', **info)
        return bf

    def visible(self):
        boxes = boxes_of({'box': self.box})
        try:
            return search(boxes).all()
        finally:
            faults_close()


def faults_close():
    import bead.zipopener
    bead.zipopener.close_all()


def check_after(world, out, how, changed=(), **info):
    '''the state after a save that ended in any way'''
    w = world.w
    info = dict(how=how, outcome=repr(out)[:1500], **info)
    w.count('saves')
    now = snap.snapshot(world.box)
    for n, d in world.box_before.items():
        if n != '.' and not n.startswith('.index'):
            w.check(now.get(n) == d, 'a file stored before changed', file=n, **info)
    after = snap.snapshot(world.ws, mtimes=True)
    if not changed:
        d = snap.diff(world.ws_before, after)
        w.check(not d, 'saving changed the workspace', diff=d, **info)
    w.check(open(world.u.registry_file, 'rb').read() == world.registry, 'saving changed the registry', **info)
    new = world.new_files()
    if out.ok:
        w.count('success')
        w.check(len(new) == 1, 'successful save, but there is not one new archive', new=new, _stop=True, **info)
    elif not out.killed:
        others = [n for n in now if n not in world.box_before and not n.startswith('.index') and n not in new]
        w.check(not others, 'unsuccessful save left files behind', others=others, **info)
    w.check(len(new) <= 1, 'more than one new archives', new=new, **info)
    new_bead = None
    for n in new:
        p = os.path.join(world.box, n)
        if out.killed and not complete(p):
            w.count('partial_after_kill')
            continue
        new_bead = world.check_bead(p, changed, **info)
    # what searches show
    seen = {(str(b.name), b.content_id) for b in world.visible()}
    old = {(b.name, b.content_id) for b in world.old}
    allowed = old | ({('ws', new_bead.content_id)} if new_bead else set())
    w.check(old <= seen <= allowed, 'searches do not show the complete beads', missing=sorted(old - seen), extra=sorted(seen - allowed), **info)
    if out.ok and new_bead and not info.get('in_index'):
        # (a failure to update the index is not a failure of the save)
        w.check(('ws', new_bead.content_id) in seen, 'successfully saved bead is not found', **info)
    return new_bead


def complete(path):
    '''does it look like an archive for an ordinary zip tool?'''
    try:
        beadfile.BeadFile(path)
        return True
    except Exception:
        return False


def later_save(world, how):
    w = world.w
    w.count('later_saves')
    had = set(zips(world.box))
    r = world.u.bead(*world.argv)
    new = [n for n in zips(world.box) if n not in had]
    if w.check(r.ok and len(new) == 1, 'a later save does not succeed', how=how, result=repr(r), tb=r.tb):
        bf = world.check_bead(os.path.join(world.box, new[0]), how=how, later=True)
        if bf:
            seen = {(str(b.name), b.content_id) for b in world.visible()}
            w.check(('ws', bf.content_id) in seen, 'bead of a later save is not found', how=how)


def run_case(case, w):
    rng = w.rng
    world = World(case, w)
    u = world.u

    def go(how, mode, n, **kw):
        world.reset()
        return faults.command(u, world.argv, scope=world.root, mode=mode, n=n, **kw)
    base = go('none', faults.COUNT, 0, log=True)
    if not w.check(base.ok, 'a valid save failed', outcome=repr(base), _stop=True):
        return
    check_after(world, base, 'none')
    names = [l.split(' ')[1] + ' ' + os.path.basename(l.split(' ', 2)[2]).split('_')[0] for l in base.log]
    total = base.ops
    w.count('max_ops', 0)
    w.counters['max_ops'] = max(w.counters['max_ops'], total)
    kinds = [
        ('kill', faults.KILL, 0), ('partial write, kill', faults.PARTIAL_KILL, 0),
        ('error', faults.FAIL, errno.EIO), ('full disk', faults.FAIL_ON, errno.ENOSPC),
        ('interrupt', faults.SIGINT, 0), ('short write, error', faults.SHORT_FAIL, errno.ENOSPC)]
    for how, mode, err in kinds:
        for n in faults.choose(rng, total, case['points'] // 2):
            out = go(how, mode, n, err=err)
            if mode in (faults.KILL, faults.PARTIAL_KILL):
                w.count('killed' if out.killed else 'not_killed')
            elif out.fired:
                w.count('interrupted' if mode == faults.SIGINT else 'failed')
            w.seen('point', [how, names[n - 1], out.ok, out.killed, len(world.new_files())])
            check_after(world, out, how, at=names[n - 1], n=n, in_index=case['indexed'] and out.fired)
            if rng.random() < .35:
                later_save(world, how)
    # read errors
    rbase = go('none', faults.COUNT, 0, reads=True, log=True)
    rtotal = rbase.ops
    rnames = [l.split(' ')[1] for l in rbase.log]
    for n in faults.choose(rng, rtotal, case['points'] // 2):
        how, mode, err = rng.choice([('read error', faults.FAIL, errno.EIO), ('interrupt', faults.SIGINT, 0), ('error', faults.FAIL, errno.EACCES), ('kill', faults.KILL, 0)])
        out = go(how, mode, n, err=err, reads=True)
        w.count('killed' if out.killed else 'interrupted' if mode == faults.SIGINT else 'failed')
        w.seen('point', [how, rnames[n - 1], out.ok, out.killed])
        # an archive that could not be read back for indexing is stored, but not in the index
        check_after(world, out, how, at=rnames[n - 1], n=n, in_index=case['indexed'] and out.fired)
        if rng.random() < .3:
            later_save(world, how)
    # concurrent changes
    victims = [n for n in [*world.code] + ['output/' + n for n in world.data]]
    for n in faults.choose(rng, rtotal, case['points']):
        race(world, rng, go, n, victims)
    overwrite(world, rng, go)
    w.sample(dict(calls=total, calls_with_reads=rtotal, shape=case['shape'], indexed=case['indexed'], first_calls=names[:6]))


def race(world, rng, go, n, victims):
    w = world.w
    if not victims:
        return
    chosen = rng.sample(victims, min(len(victims), rng.choice([1, 1, 2])))
    how = rng.choice(['append', 'truncate', 'rewrite', 'same size', 'delete', 'replace', 'grow', 'new file'])
    seed = rng.random()

    def change(_):
        for v in chosen:
            p = os.path.join(world.ws, v)
            try:
                if how == 'append':
                    with open(p, 'ab') as f:
                        f.write(b'appended')
                elif how == 'truncate':
                    with open(p, 'wb'):
                        pass
                elif how == 'rewrite':
                    with open(p, 'wb') as f:
                        f.write(b'completely different, longer content ' * 3)
                elif how == 'same size':
                    size = os.path.getsize(p)
                    with open(p, 'r+b') as f:
                        f.write(b'#' * size)
                elif how == 'delete':
                    os.unlink(p)
                elif how == 'replace':
                    with open(p + '.tmp', 'wb') as f:
                        f.write(b'replaced')
                    os.rename(p + '.tmp', p)
                elif how == 'grow':
                    with open(p, 'ab') as f:
                        f.write(bytes(3_000_000))
                elif how == 'new file':
                    with open(p + '.new', 'wb') as f:
                        f.write(b'new')
            except OSError:
                pass
    out = go('race', faults.CALLBACK, n, reads=True, callback=change)
    w.count('raced')
    w.seen('point', ['race', how, out.ok])
    changed = set(chosen) | {v + '.new' for v in chosen} | {v + '.tmp' for v in chosen}
    check_after(world, out, 'race ' + how, changed=changed, n=n, victims=chosen)


def overwrite(world, rng, go):
    '''an existing file is never overwritten'''
    w = world.w
    at = 1_600_000_000_000_000 + rng.randrange(10 ** 12)
    target = os.path.join(world.box, f'ws_{beadfile.ts_from_instant(at)}.zip')
    elsewhere = os.path.join(world.root, 'elsewhere')

    def occupy(kind):
        def f(_=None):
            if kind == 'file':
                with open(target, 'wb') as f:
                    f.write(b'precious')
            elif kind == 'directory':
                os.mkdir(target)
            elif kind == 'link':
                os.symlink(elsewhere, target)
            else:
                with open(elsewhere, 'wb') as f:
                    f.write(b'precious')
                os.symlink(elsewhere, target)
        return f
    for kind in ('file', 'directory', 'link', 'link to file'):
        for when in ('before', 'during'):
            world.reset()
            if when == 'before':
                occupy(kind)()
                out = faults.command(world.u, world.argv, scope=world.root, clock=at)
            else:
                out = faults.command(world.u, world.argv, scope=world.root, clock=at, mode=faults.CALLBACK, n=1, callback=occupy(kind))
            w.count('occupied')
            info = dict(kind=kind, when=when, outcome=repr(out)[:1000])
            if kind in ('file', 'link to file'):
                p = target if kind == 'file' else elsewhere
                w.check(os.path.isfile(p) and open(p, 'rb').read() == b'precious', 'saving overwrote or removed an existing file', **info)
            w.check(os.path.lexists(target), 'saving removed something', **info)
            w.check(kind != 'link' or not os.path.exists(elsewhere), 'saving wrote through a link', **info)
            w.check(not out.ok, 'save reported success over an existing file', **info)
            w.check(kind != 'directory' or os.listdir(target) == [], 'saved into a directory', **info)

'''
Random histories of commands over boxes, beads and workspaces, with environment changes between them.
The session only knows what is independently known (bytes of the beads it wrote itself).
'''
import os
import shutil

from . import beadfile, gen, snap
from .cli import User
from .world import input_tree, is_valid_ws, put_bead, ws_inputs, ws_meta

NICKS = ['a', 'b', 'c', 'in put', 'ünï', "q'", '.h', '[x]', '*', '-d', 'x.zip', 'A', '日本', 'a b', '%41', 'output', 'input', '~', 'a\\b', '{}', 'new\nline', '...', 'n' * 255, 'é' * 127, 'x' * 240]


class Op:
    '''what was done and what was seen'''

    def __init__(self, name, ws=None, nick=None, bead=None, **kw):
        self.name, self.ws, self.nick, self.bead = name, ws, nick, bead
        self.result = None
        self.__dict__.update(kw)

    def __repr__(self):
        return f'{self.name}({self.nick!r}, {getattr(self.bead, "path", None)!r}, {self.result!r})'


class Session:
    def __init__(self, w, boxes=2, beads=8, workspaces=1, indexed=.4, names=None, kinds=None, trees=None, oversized=True):
        self.w, self.rng = w, w.rng
        rng = w.rng
        self.u = User(w)
        self.boxes = {}
        for i in range(boxes):
            n = f'box{i}'
            self.boxes[n] = self.u.add_box(n)
        self.names = names or rng.sample(gen.BEAD_NAMES, 3)
        self.kinds = kinds or rng.sample(gen.KINDS, 2)
        self.trees = trees or (lambda: gen.gen_tree(rng, n=rng.choice([0, 1, 2, 4, 8]), feature=rng.choice([None] * 6 + [2, 7, 8, 9, 10, 11, 12])))
        self.by_cid = {}        # content id -> BeadFile (as written)
        self.damaged = {}       # path -> original bytes
        self.oversized = set()  # content ids that can not be extracted
        self.allow_oversized = oversized
        for _ in range(beads):
            self.new_bead()
        for n, d in self.boxes.items():
            if rng.random() < indexed:
                self.u.must('box', 'index', '--box', n)
        self.work = self.u.mkdir('work')
        self.workspaces = []
        for i in range(workspaces):
            ws = os.path.join(self.work, f'ws{i}')
            self.u.must('new', ws)
            gen.write_tree(ws, {'src': b's', 'lib/x.py': b'x', 'output/o': b'o', 'output/d/o2': b'o2', 'temp/t': b't'})
            self.workspaces.append(ws)

    # ---- environment
    def files(self):
        return [os.path.join(d, n) for d in self.boxes.values() if os.path.isdir(d) for n in sorted(os.listdir(d)) if n.endswith('.zip')]

    def good_beads(self):
        '''BeadFiles presently intact in boxes'''
        out = []
        for p in self.files():
            if p not in self.damaged:
                out.append(self.at(p))
        return out

    def at(self, path):
        bf = beadfile.BeadFile(path)
        return bf

    def new_bead(self):
        rng = self.rng
        d = rng.choice(list(self.boxes.values()))
        data = self.trees()
        too_long = self.allow_oversized and rng.random() < .04
        if too_long:
            data['l' * 300] = b'can not be extracted'
        name, kind, instant = rng.choice(self.names), rng.choice(self.kinds), gen.gen_instant(rng)
        if self.by_cid and rng.random() < .2:
            # saved at the very same time as another one
            twin = rng.choice(list(self.by_cid.values()))
            other = [x for x in self.names if x != twin.name]
            name, kind, instant = rng.choice(other or [name]), twin.kind, twin.instant
        bf = put_bead(d, rng, name, kind=kind, data=data, instant=instant)
        self.by_cid[bf.content_id] = bf
        if too_long:
            self.oversized.add(bf.content_id)
        return bf

    def env_new(self):
        self.new_bead()

    def env_remove(self):
        fs = self.files()
        if len(fs) > 2:
            p = self.rng.choice(fs)
            os.unlink(p)
            self.damaged.pop(p, None)

    def env_damage(self):
        fs = [p for p in self.files() if p not in self.damaged]
        if len(fs) > 2:
            p = self.rng.choice(fs)
            b = open(p, 'rb').read()
            self.damaged[p] = b
            how = self.rng.randrange(3)
            if how == 0:
                # self consistent zip, wrong content
                self.rewrite(p)
            elif how == 1:
                self.put(p, b[:self.rng.randrange(len(b))])
            else:
                x = bytearray(b)
                for _ in range(20):
                    x[self.rng.randrange(len(x))] ^= 0x55
                self.put(p, x)

    @staticmethod
    def put(p, content):
        '''replace content of file'''
        os.chmod(p, 0o644)
        with open(p, 'wb') as f:
            f.write(content)

    def rewrite(self, p):
        import zipfile
        os.chmod(p, 0o644)
        with zipfile.ZipFile(p) as z:
            ms = [(n, z.read(n)) for n in z.namelist()]
        with zipfile.ZipFile(p, 'w') as z:
            done = False
            for n, b in ms:
                if n.startswith('data/') and not done:
                    done, b = True, b + b'TAMPERED'
                z.writestr(beadfile.raw_info(n, zipfile.ZIP_STORED), b)
            if not done:
                z.writestr(beadfile.raw_info('data/extra', zipfile.ZIP_STORED), b'TAMPERED')

    def env_repair(self):
        if self.damaged:
            p = self.rng.choice(list(self.damaged))
            self.put(p, self.damaged.pop(p))

    def env_copy(self):
        fs = [p for p in self.files() if p not in self.damaged]
        if fs:
            p = self.rng.choice(fs)
            d = self.rng.choice(list(self.boxes.values()))
            t = os.path.join(d, os.path.basename(p))
            if not os.path.exists(t):
                shutil.copy(p, t)

    def env_index(self):
        n = self.rng.choice(list(self.boxes))
        self.u.bead('box', self.rng.choice(['index', 'reindex']), '--box', n)

    def env_index_all(self):
        self.u.bead('box', 'index', '--all')

    def environment(self, weights=None):
        f = self.rng.choice([self.env_new, self.env_new, self.env_remove, self.env_damage, self.env_repair, self.env_repair, self.env_copy, self.env_index, self.env_index_all])
        f()
        self.w.log('env', f.__name__)
        return f.__name__

    # ---- commands on inputs
    def input_op(self, ws=None, forced=None):
        rng, u = self.rng, self.u
        ws = ws or rng.choice(self.workspaces)
        recorded = ws_inputs(ws)
        known = list(recorded)
        fresh = rng.choice(self.nick_pool)
        nick = rng.choice(known) if known and rng.random() < .75 else fresh
        beads = self.good_beads()
        bead = rng.choice(beads) if beads else None
        kind = rng.choice(['add', 'add', 'add', 'load', 'load', 'load all', 'unload', 'unload', 'unload all', 'delete', 'update', 'update', 'update file', 'update file', 'update all', 'step', 'add damaged', 'update damaged'])
        if not known and kind != 'add damaged':
            kind, nick = 'add', fresh
        if forced:
            kind, nick = forced, fresh
        cwd = rng.choice([ws, os.path.join(ws, 'output'), os.path.join(ws, 'lib')])
        cwd = cwd if os.path.isdir(cwd) else ws
        op = Op(kind, ws, nick, None)
        op.before = recorded
        op.loaded_before = {n for n in recorded if os.path.isdir(os.path.join(ws, 'input', n))}
        args = None
        if kind == 'add' and bead:
            op.bead = bead
            args = ['add', '--', nick, bead.path]
        elif kind == 'load':
            args = ['load', '--', nick]
        elif kind == 'load all':
            args = ['load']
        elif kind == 'unload':
            args = ['unload', '--', nick]
        elif kind == 'unload all':
            args = ['unload']
        elif kind == 'delete':
            args = [rng.choice(['delete', 'rm']), '--', nick]
        elif kind == 'update':
            args = ['update'] + (['-t', beadfile.ts_from_instant(gen.gen_instant(rng))] if rng.random() < .3 else []) + ['--', nick]
        elif kind == 'step':
            args = ['update', rng.choice(['--prev', '--next']), '--', nick]
        elif kind == 'update file' and bead:
            op.bead = bead
            args = ['update', '--', nick, bead.path]
        elif kind == 'update all':
            args = ['update']
        elif kind in ('add damaged', 'update damaged') and self.damaged:
            args = [kind.split()[0], '--', nick, rng.choice(list(self.damaged))]
        if args is None:
            return None
        op.result = u.bead('input', *args, cwd=cwd)
        op.after = ws_inputs(ws)
        self.w.count('input_commands')
        return op

    _nick_pool = None

    @property
    def nick_pool(self):
        if self._nick_pool is None:
            self._nick_pool = self.rng.sample(NICKS, 5)
        return self._nick_pool

    def expected(self, triple):
        '''data tree of the bead recorded as an input'''
        bf = self.by_cid.get(triple[1])
        if bf is None or (bf.kind, bf.content_id, bf.freeze_time_str) != tuple(triple):
            return None
        return bf.data

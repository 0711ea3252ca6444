'''
The same commands do the same in every environment: one history is run in two worlds with different environments.
'''
import json
import os
import re
import shutil
import subprocess
import sys

from harness import beadfile, gen, snap
from harness.query import NAME_FAMILIES
from harness.world import box_records, is_valid_ws, put_bead, random_inputs, ws_inputs, ws_meta, ws_trees

PROPERTY = 'C37'
LEVEL = 'exploration'
RULE = ('one case = a random history of all commands, run in two worlds with the same content but at different places of the file system and with different environments (time zone, locale, hash seed, '
        'umask, order of directory listings, home and configuration directories, names of the current directory, temporary directory, compression preference, limit of open files); '
        'exit status, output and everything left behind are compared after every command; non-trivial = distinct (command, outcome, axis that differs) tuples')
REQUIRED = {'commands_run': 2000, 'succeeded': 1300, 'refused': 150, 'saved': 150, 'edited': 100, 'webs': 120, 'statuses': 120, 'indexed': 40, 'worlds_compared': 2000, 'beads_compared': 15000, '#axis': 30, '#state': 200}

ZONES = ['UTC', 'Asia/Tokyo', 'America/St_Johns', 'Pacific/Chatham', 'XXX-14', 'XXX+12', 'Asia/Kathmandu', 'America/New_York', 'Europe/London', 'Australia/Lord_Howe']
PLACES = ['plain', 'a b', 'ünï', '日本', '[x]', '*', '%s', "it's", 'x' * 100, '.hidden', 'input', 'output/temp', '.bead-meta', 'a/b/c/d/e', '{0}', 'new\nline', '-x', '#', '~', 'x.zip', 'x_20200101T000000000000+0000', '$HOME', 'C:\\x', '😀', '"', "a'b''c"]


def plan(tier, rng):
    n = 72 if tier == 'quick' else 1500
    return [dict(steps=40, indexed=['all', 'some', 'none'][i % 3], boxes=i % 2 + 1 + i % 3 // 2, beads=[6, 14][i // 3 % 2]) for i in range(n)]


def environment(rng, plain):
    '''axis -> value'''
    if plain:
        return dict(TZ='UTC', LC_ALL='C.UTF-8', PYTHONHASHSEED='0', umask=0o022, order='sorted', home='home', xdg=None, pwd='real', COLUMNS=None, TMPDIR=None, BEAD_ZIP_COMPRESSION=None, place='w', closing='closing', files=1024)
    return dict(
        TZ=rng.choice(ZONES), LC_ALL=rng.choice(['C', 'POSIX', 'C.UTF-8', 'C.utf8', '', 'hu_HU.UTF-8']), PYTHONHASHSEED=str(rng.randrange(10 ** 6)), umask=rng.choice([0o022, 0o077, 0o002, 0]),
        order=rng.choice(['system', 'sorted', 'reversed', 'shuffled', 'shuffled']), home=rng.choice(['home', 'h o m e', 'ünï', 'linked']), xdg=rng.choice([None, 'cfg', 'c f g/x']),
        pwd=rng.choice(['real', 'linked']), COLUMNS=None, TMPDIR=rng.choice([None, 'tmp', 'missing']),
        BEAD_ZIP_COMPRESSION=rng.choice([None, 'off', 'stored', 'deflated', 'garbage', '']), place=os.path.join(*rng.sample(PLACES, rng.choice([1, 3, 5]))), closing=rng.choice(['closing', 'keeping']), files=rng.choice([1024, 64]))


class World:
    def __init__(self, w, name, env):
        self.w, self.env = w, env
        real = os.path.join(w.dir, name, env['place'])
        os.makedirs(real)
        if env['pwd'] == 'linked':
            self.root = os.path.join(w.dir, name + '-link', *env['place'].split('/')[::-1])
            os.makedirs(os.path.dirname(self.root))
            os.symlink(real, self.root)
        else:
            self.root = real
        self.roots = sorted({real, self.root, os.path.realpath(real)}, key=len, reverse=True)
        self.names = {}     # what is different in each world -> common name
        self.server = None
        h = os.path.join(w.dir, name + '-' + (env['home'] if env['home'] != 'linked' else 'real'))
        os.mkdir(h)
        if env['home'] == 'linked':
            os.symlink(h, h + 'l')
            h += 'l'
        self.home = h
        self.outside = {h: '<HOME>', os.path.realpath(h): '<HOME>'}

    def path(self, *p):
        return os.path.join(self.root, *p)

    def start(self):
        e = self.env
        env = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'TMPDIR', 'XDG_CONFIG_HOME', 'COLUMNS', 'LC_ALL', 'LANG', 'TZ')}
        env['HOME'] = self.home
        for k in ('TZ', 'LC_ALL', 'PYTHONHASHSEED', 'COLUMNS', 'BEAD_ZIP_COMPRESSION'):
            if e[k] is not None:
                env[k] = e[k]
        if e['xdg']:
            env['XDG_CONFIG_HOME'] = os.path.join(self.home, e['xdg'])
        if e['TMPDIR']:
            env['TMPDIR'] = os.path.join(self.home, e['TMPDIR'])
            if e['TMPDIR'] == 'tmp':
                os.mkdir(env['TMPDIR'])

        def prepare():
            import resource
            os.umask(e['umask'])
            resource.setrlimit(resource.RLIMIT_NOFILE, (e['files'], e['files']))
        self.server = subprocess.Popen([sys.executable, '-m', 'harness.elsewhere', e['order'], e['closing']], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                       env=env, preexec_fn=prepare, cwd=self.root, text=True)

    def stop(self):
        if self.server:
            self.server.kill()
            self.server.wait()
            self.server.stdin.close()
            self.server.stdout.close()

    def bead(self, cwd, argv):
        argv = [a.replace('{R}', self.root) for a in argv]
        self.server.stdin.write(json.dumps([self.path(cwd), argv]) + '\n')
        self.server.stdin.flush()
        line = self.server.stdout.readline()
        if not line:
            raise RuntimeError('the server is gone')
        return json.loads(line)

    # ---- normal form
    def learn(self, counter):
        '''names of what is different in each world'''
        for n in sorted(os.listdir(self.root)):
            p = self.path(n)
            if is_valid_ws(p):
                self.name(ws_meta(p)['kind'], 'K', counter)
        found = []
        for n in sorted(os.listdir(self.root)):
            if n.startswith('box') and os.path.isdir(self.path(n)):
                found += box_records(self.path(n))
        if os.path.isdir(os.path.join(self.home, 'BeadBox')):
            found += box_records(os.path.join(self.home, 'BeadBox'))
        new = [b for b in found if b.content_id not in self.names]
        # saved ones are known one by one, except for the first time
        for bf in sorted(new, key=lambda b: (b.instant, b.content_id)):
            self.name(bf.kind, 'K', counter)
            self.name(bf.content_id, 'C', counter)
            self.name(bf.freeze_time_str, 'T', counter)
            # the same for people
            m = re.fullmatch(r'(\d{4})(\d\d)(\d\d)T(\d\d)(\d\d)(\d\d)(\d{6})([-+]\d\d)(\d\d)', bf.freeze_time_str)
            y, mo, d, h, mi, sec, us, oh, om = m.groups()
            self.names[f'{y}-{mo}-{d} {h}:{mi}:{sec}' + (f'.{us}' if int(us) else '') + f'{oh}:{om}'] = self.names[bf.freeze_time_str]
        return found

    def name(self, value, prefix, counter):
        if value not in self.names:
            counter[prefix] = counter.get(prefix, 0) + 1
            self.names[value] = f'<{prefix}{counter[prefix]}>'

    def normal(self, text):
        for r in self.roots:
            text = text.replace(json.dumps(r)[1:-1], '<R>').replace(r, '<R>')
        for r, n in sorted(self.outside.items(), key=lambda x: -len(x[0])):
            text = text.replace(json.dumps(r)[1:-1], n).replace(r, n)
        if self.names:
            text = re.sub('|'.join(re.escape(n) for n in sorted(self.names, key=len, reverse=True)), lambda m: self.names[m.group()], text)
        return text

    def state(self, found):
        '''everything, in normal form'''
        r = {}
        for n in sorted(os.listdir(self.root)):
            p = self.path(n)
            if is_valid_ws(p):
                code, data = ws_trees(p)
                meta = json.loads(self.normal(json.dumps(ws_meta(p), ensure_ascii=False)))
                r[n] = dict(meta=meta, code=code, data=data, input=snap.tree_files(os.path.join(p, 'input')))
            elif os.path.isdir(p):
                r[n] = sorted(self.normal(x) for x in os.listdir(p) if not x.startswith('.index.sqlite-'))
            elif n.endswith('.web'):
                with open(p, encoding='utf-8') as f:
                    r[n] = sorted(self.normal(json.dumps(b, sort_keys=True)) for b in json.load(f))
            else:
                r[n] = 'file'
        r['beads'] = sorted(
            [self.normal(x) for x in (bf.name, bf.kind, bf.freeze_time_str, json.dumps(bf.inputs, sort_keys=True), bf.content_id)] + [sorted((k, v.hex()) for k, v in {**bf.code, **bf.data}.items())]
            for bf in found)
        for d, _dirs, files in os.walk(self.home):
            for f in files:
                if f == 'env.json':
                    with open(os.path.join(d, f), encoding='utf-8') as x:
                        r['registry'] = json.loads(self.normal(x.read()))
        return r


class Pair:
    def __init__(self, case, w):
        self.w, self.rng = w, w.rng
        rng = w.rng
        # one plain environment, or two strange ones
        self.envs = [environment(rng, rng.random() < .6), environment(rng, False)]
        self.worlds = [World(w, 'A', self.envs[0]), World(w, 'B', self.envs[1])]
        self.names = rng.choice([f for f in NAME_FAMILIES if not any('\n' in n or n == '--' or '.zip' in n or '/' in n for n in f)])
        self.kinds = rng.sample(gen.KINDS, 3)
        self.start = gen.gen_instant(rng)
        self.boxes = {}
        self.serial = 0
        self.ws = []
        self.nicks = ['a', 'b', 'ünï', 'x y']
        A = self.worlds[0]
        for i in range(case['boxes']):
            n = f'box{i}'
            self.boxes[f'b{i}'] = n
            os.mkdir(A.path(n))
        made = []
        for _ in range(case['beads']):
            self.serial += 1
            known = {b.name: (b.kind, b.content_id, b.freeze_time_str) for b in made}
            inputs = {n: known[n] for n in rng.sample(sorted(known), min(len(known), rng.choice([0, 0, 1, 2])))} if rng.random() < .7 else random_inputs(rng)
            made.append(put_bead(A.path(rng.choice(list(self.boxes.values()))), rng, rng.choice(self.names), instant=self.start + self.serial * 10 ** 6, offset=rng.choice(gen.OFFSETS), kind=rng.choice(self.kinds),
                                 code={'c': b'%d' % self.serial, 'd/e': b'x'}, data={'d': b'%d' % self.serial, 'ünï/x y': b'y'}, inputs=inputs))
        for n in self.boxes.values():
            shutil.copytree(A.path(n), self.worlds[1].path(n))
        self.last_state = None

    def run(self, cwd, *argv, what=None):
        w = self.w
        results = [x.bead(cwd, argv) for x in self.worlds]
        counters = [getattr(x, 'counter', {}) for x in self.worlds]
        found = []
        for x, c in zip(self.worlds, counters):
            x.counter = c
            found.append(x.learn(c))
        info = dict(argv=argv, cwd=cwd, envs=[{k: v for k, v in e.items() if v != self.envs[1 - i][k]} for i, e in enumerate(self.envs)])
        a, b = results
        w.count('commands_run')
        w.check(not str(a[0]).startswith('escaped') and not str(b[0]).startswith('escaped'), 'internal error', results=results, **info)
        texts = []
        for x, (code, out, err) in zip(self.worlds, results):
            texts.append([code, self.lines(x, out), self.lines(x, err)])
        w.check(texts[0] == texts[1], 'a command answers something else in another environment', a=texts[0], b=texts[1], raw=[r[1][-300:] for r in results], **info)
        states = [x.state(f) for x, f in zip(self.worlds, found)]
        if states[0] != states[1]:
            d = [(k, states[0].get(k), states[1].get(k)) for k in {*states[0], *states[1]} if states[0].get(k) != states[1].get(k)]
            w.violate('a command does something else in another environment', different=repr(d)[:3000], **info)
        w.count('worlds_compared')
        w.count('beads_compared', len(found[0]))
        ok = a[0] in (0, None)
        w.count('succeeded' if ok else 'refused')
        if what:
            if ok:
                w.count(what)
        differing = [k for k in self.envs[0] if self.envs[0][k] != self.envs[1][k]]
        for k in differing:
            for v in self.envs[1][k].split('/') if k == 'place' else [self.envs[1][k]]:
                w.seen('axis', [k, v])
            w.seen('state', [argv[0], argv[1] if argv[0] in ('input', 'box') else '', ok, k])
        return ok

    def lines(self, world, text):
        # (the order of loading is free)
        text = re.sub(r'(?m)^Loaded bead \d+ ', 'Loaded bead ', text.replace('\r', '\n'))
        return sorted(x.strip() for x in world.normal(text).split('\n') if x.strip())


def step(p):
    w, rng, A = p.w, p.rng, p.worlds[0]
    op = rng.choice(['new', 'edit', 'edit', 'edit', 'save', 'save', 'save', 'add', 'add', 'add', 'update', 'update all', 'load', 'load all', 'unload', 'delete', 'status', 'status', 'web', 'web', 'web',
                     'index', 'box', 'discard', 'write'])
    p.serial += 1
    target = f'{rng.choice(["w", "w s", "ünï", "[w]"])}{p.serial}'
    name = rng.choice(p.names)
    box = rng.choice(list(p.boxes))
    when = ['-t', beadfile.ts_from_instant(p.start + rng.randrange(0, p.serial + 1) * 10 ** 6, rng.choice(gen.OFFSETS))] if rng.random() < .4 else []
    if op in ('new', 'edit') or not p.ws:
        if op == 'edit':
            if p.run('.', 'edit', *when, *rng.choice([[], ['--review']]), '--', name, target, what='edited'):
                p.ws.append(target)
        elif p.run('.', 'new', target):
            p.ws.append(target)
        return
    ws = rng.choice(p.ws)
    rec = ws_inputs(A.path(ws))
    nick = rng.choice(list(rec) or p.nicks) if rng.random() < .9 else rng.choice(p.nicks)
    at, place = rng.choice([(ws, []), (os.path.join(ws, 'output'), []), ('.', ['-w', ws]), ('.', ['-w', '{R}/' + ws])])
    if op == 'write':
        content = b'%d' % rng.randrange(10 ** 9)
        f = rng.choice(['output/o', 'c', 'output/w', 'sub/x'])
        for x in p.worlds:
            q = x.path(ws, f)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'wb') as o:
                o.write(content)
    elif op == 'save':
        p.run(at, 'save', *rng.choice([[], [box], [box]]), *place, what='saved')
    elif op == 'add':
        p.run(at, 'input', 'add', *place, *when, '--', rng.choice(p.nicks), name)
    elif op == 'update':
        p.run(at, 'input', 'update', *place, *rng.choice([when, ['--prev'], ['--next']]), '--', nick)
    elif op == 'update all':
        p.run(at, 'input', 'update', *place, *when)
    elif op == 'load':
        p.run(at, 'input', 'load', *place, '--', nick)
    elif op == 'load all':
        p.run(at, 'input', 'load', *place)
    elif op in ('unload', 'delete'):
        p.run(at, 'input', op, *place, '--', nick)
    elif op == 'status':
        p.run(at, 'status', *place, *rng.choice([[], ['-v']]), what='statuses')
    elif op == 'web':
        p.run('.', 'web', *rng.choice([[], ['color'], ['heads'], ['color', 'heads'], ['/', '..', name, '/'], ['/', name, '..', '/', 'color']]), 'save', f'x{p.serial}.web', what='webs')
    elif op == 'index':
        p.run('.', 'box', rng.choice(['index', 'index', 'reindex']), *rng.choice([['--all'], ['--box', box], ['--dir', '{R}/' + p.boxes[box]], ['--dir', p.boxes[box]]]), what='indexed')
    elif op == 'box':
        p.run('.', 'box', *rng.choice([['list'], ['list'], ['add', 'x', p.boxes[box]], ['add', box, '{R}'], ['forget', 'nothing']]))
    elif op == 'discard':
        if p.run(*rng.choice([('.', 'discard', ws), ('.', 'discard', '{R}/' + ws), ('.', 'discard', '--force', ws), (ws, 'discard'), ('.', 'discard', p.boxes[box])])) and not os.path.exists(A.path(ws)):
            p.ws.remove(ws)


def run_case(case, w):
    p = Pair(case, w)
    try:
        for x in p.worlds:
            x.start()
        for n, d in p.boxes.items():
            w.check(p.run('.', 'box', 'add', n, w.rng.choice([d, '{R}/' + d])), 'a box can not be added', box=d)
            if case['indexed'] == 'all' or case['indexed'] == 'some' and w.rng.random() < .5:
                p.run('.', 'box', 'index', '--box', n)
        for _ in range(case['steps']):
            step(p)
        w.sample(dict(envs=p.envs, workspaces=len(p.ws), beads=len(box_records(p.worlds[0].path('box0')))))
    finally:
        for x in p.worlds:
            x.stop()

'''Generators of hostile but legal inputs.'''
import os
import zipfile

FILE_NAMES = [
    'a.txt', '.hidden', 'space name.txt', ' leading', 'trailing ', '-dash', 'ünï.txt', 'e\u0301.txt', '\u00e9.txt',
    '日本.dat', '😀.bin', 'q"uote', "apos'", 'back\\slash', 'per%cent', 'st*ar', 'br[1]ack', 'tilde~', 'a__b',
    'semi;colon', 'new\nline', 'tab\tname', 'a:b', 'input', 'output', 'temp', 'meta', 'code', 'data', 'manifest',
    'bead', '.bead-meta', 'con', 'x' * 180, 'UPPER', 'upper', 'file.zip', '.index.sqlite', 'env.json', '$HOME',
    '&amp;', '<tag>', 'z\u200bw', 'dot.', '...', '.git', 'Makefile', '__init__.py', '__pycache__', 'a.pyc', '#x#',
    'a~', '.gitignore', 'Thumbs.db', '.DS_Store', 'core', 'nul', 'x.tmp', 'x.bak', '.x.swp', 'meta.json', 'ＦＵＬＬ',
    'İstanbul', 'ß', 'bead_20200101.zip', '..a', 'a..b', '...b', 'data.', 'code ', '0', '-', '@', '+', '=', ',',
]
TOP_RESERVED = ('input', 'output', 'temp', '.bead-meta')
TOP_NEAR_RESERVED = [
    'inputs', 'output2', 'temp2', 'Input', 'OUTPUT', 'Temp', '.bead-meta2', '.bead', 'input.txt', 'output.csv',
    'temp.sh', 'meta', 'code', 'data', 'in', 'out', 'input~', ' input', 'output ', '.input', '.temp', '.output',
]
DIR_NAMES = ['d', 'sub', 'input', 'output', 'temp', '.bead-meta', 'meta', 'code', 'data', '.git', 'ünï', 'with space', 'x.d', '日本', 'a__b', '[x]', '*', '-d', '__pycache__']
SIZES = [0, 1, 2, 255, 4096, 65535, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 2 * (1 << 20) + 7]
BEAD_NAMES = [
    'plain', 'with space', 'ünï', '日本', 'g[1]', 'st*r', 'q?m', 'a.b', '2015v3', 'x_20200101', 'x_20200101T000000',
    'data', '.dot', "o'brien", 'pct%41', 'h#sh', 'a&b', '<b>', 'semi;', '~t', 'UPPER', 'upper', 'a_b', 'a-b', 'a+b',
    '{x}', '$V', '!x', 'a..b', 'x.zip', 'plain2', 'plai', 'plain_', 'g[', 'g1', 'q"q', '[!a]', 'x' * 120, 'input', 'e\u0301', '\u00e9',
    '_x', 'x_', '_', 'x_2020', 'x_20200101T000000000000+0000', '**', 'a,b', 'a=b', '@', 'İ', ' lead', 'trail ',
]
CONTENTS = [b'', b'\n', b'\r\n', b'a\r\nb\n', b'\xef\xbb\xbfbom', b'\x00\x01\x02', b'\xff\xfe', b'{}', b'PK\x05\x06' + b'\0' * 18,
            b'same', b'same', b'text without newline', 'ünï\n'.encode(), b'\x1a\x04']


def payload(rng, size):
    mode = rng.randrange(3)
    if mode == 0:
        return rng.randbytes(size)
    if mode == 1:
        return bytes(size)
    unit = rng.randbytes(17)
    return (unit * (size // 17 + 1))[:size]


def content(rng, big=False):
    r = rng.random()
    if r < 0.35:
        return rng.choice(CONTENTS)
    if r < 0.8 or not big:
        return rng.randbytes(rng.choice([1, 3, 10, 100, 1000]))
    return payload(rng, rng.choice(SIZES))


def rel_name(rng, depth=None):
    depth = rng.choice([0, 0, 0, 1, 1, 2, 3]) if depth is None else depth
    return '/'.join([rng.choice(DIR_NAMES) for _ in range(depth)] + [rng.choice(FILE_NAMES)])


def _compatible(tree, name):
    '''no file is also a directory'''
    parts = name.split('/')
    for i in range(1, len(parts)):
        if '/'.join(parts[:i]) in tree:
            return False
    prefix = name + '/'
    return not any(t.startswith(prefix) for t in tree) and name not in tree


def add(tree, name, data):
    if _compatible(tree, name):
        tree[name] = data
        return True
    return False


def gen_tree(rng, n=None, top_reserved=(), big=False, feature=None):
    '''{relative name: bytes}; top_reserved names are not used at the top level'''
    tree = {}
    n = rng.choice([0, 1, 2, 5, 12]) if n is None else n

    def put(name, data):
        if name.split('/')[0] in top_reserved:
            return False
        return add(tree, name, data)
    if feature is not None:
        FEATURES[feature % len(FEATURES)](rng, put)
    for _ in range(n):
        put(rel_name(rng), content(rng, big))
    return tree


def f_names(rng, put):
    for n in FILE_NAMES:
        put(n, n.encode())


def f_names_sub(rng, put):
    for n in FILE_NAMES:
        put('sub/' + n, b'sub' + n.encode())


def f_reserved_deep(rng, put):
    for d in ('sub', 'sub/deeper', 'code', 'data', 'meta'):
        for r in ('input', 'output', 'temp', '.bead-meta', 'meta', 'code', 'data'):
            put(f'{d}/{r}/x', f'{d}/{r}'.encode())
            put(f'{d}/{r}/sub/y', f'{d}/{r}/y'.encode())
    put('meta/bead', b'not really')
    put('meta/manifest', b'{"not": "this"}')


def f_near_reserved(rng, put):
    for i, n in enumerate(TOP_NEAR_RESERVED):
        put(n if i % 2 else n + '/f', n.encode())


def f_sizes(rng, put):
    for s in SIZES:
        put(f'size{s}', payload(rng, s))


def f_many(rng, put):
    # more than the files that can be open at the same time
    for i in range(1200):
        put(f'many/{i % 3}/{i}.txt', str(i).encode())


def f_deep(rng, put):
    put('/'.join(['deep'] * 25 + ['leaf']), b'deep')
    put('/'.join(['n%d' % i for i in range(15)]) + '/leaf', b'')


def f_same(rng, put):
    for i in range(10):
        put(f's{i}', b'identical')
        put(f'dir{i}/s', b'identical')


def f_contents(rng, put):
    for i, c in enumerate(CONTENTS):
        put(f'content{i}', c)


def f_hidden(rng, put):
    for n in ('.h', '.h.d/f', '.git/config', '.git/objects/aa/bb', '.bead-meta-x/f', 'd/.h', 'd/.e/.f', '.cache/x.tmp', '__pycache__/x.pyc', 'node_modules/a.js'):
        put(n, n.encode())


def f_case(rng, put):
    for n in ('A', 'a', 'AB/x', 'ab/x', 'e\u0301', '\u00e9', 'K', '\u212a', 'ſ', 's', 'ﬁ', 'fi'):
        put(n, n.encode())


def f_flat_empty(rng, put):
    for n in ('empty', 'd/empty', 'd/e/empty'):
        put(n, b'')


def f_sortish(rng, put):
    for n in ('a', 'a!', 'a.b', 'a0', 'b/a', 'b!/a', 'b.d/a', 'b0/a', 'b-/a'):
        put(n, n.encode())


def f_longpath(rng, put):
    put('/'.join(['x' * 200] * 4) + '/' + 'y' * 200, b'long')


FEATURES = [f_names, f_names_sub, f_reserved_deep, f_near_reserved, f_sizes, f_many, f_deep, f_same, f_contents,
            f_hidden, f_case, f_flat_empty, f_sortish, f_longpath]


def write_tree(root, tree, rng=None, decorate=False, store=None):
    '''materialise a tree; decorate: odd times, permissions, links'''
    root = os.fspath(root)
    names = list(tree)
    if rng:
        rng.shuffle(names)
    for n in names:
        p = os.path.join(root, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if store and rng.random() < 0.08:
            # symlink to a file elsewhere
            os.makedirs(store, exist_ok=True)
            target = os.path.join(store, f'{len(os.listdir(store))}')
            with open(target, 'wb') as f:
                f.write(tree[n])
            os.symlink(target, p)
            continue
        with open(p, 'wb') as f:
            f.write(tree[n])
        if decorate:
            r = rng.random()
            if r < 0.15:
                t = rng.choice([0, 1, 86400 * 365 * 5, 315532799, 315532800, 4354819200, 4102444800, 1e9])
                os.utime(p, (t, t))
            elif r < 0.25:
                os.chmod(p, rng.choice([0o400, 0o755, 0o700, 0o444, 0o600]))
            elif r < 0.29 and decorate == 'hard':
                # another name of the same file, at times of the same set of files
                try:
                    os.link(p, os.path.join(rng.choice([root, os.path.dirname(p)]), rng.choice(['hard link', '.hard', 'x.hard'])))
                except FileExistsError:
                    pass


OFFSETS = [0, 60, 120, -60, -300, -480, 330, 345, 540, 765, 825, -570, -210, 840, -720, 1, -1]


def gen_instant(rng, lo=946684800, hi=1767225600):
    '''microseconds between 2000 and 2026'''
    return rng.randrange(lo, hi) * 1_000_000 + rng.choice([0, 0, 1, 999999, rng.randrange(1_000_000)])


def near(rng, us):
    return us + rng.choice([0, 1, -1, 1000, -1000, 1_000_000, -1_000_000, 3_600_000_000, -3_600_000_000, 86_400_000_000, 60_000_000])


COMPRESSIONS = [zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED]


KINDS = ['kind-a', 'kind-b', 'kind', 'kind-', "k'ind", 'KIND-A', 'kind%', 'kind_a', '9b1deb4d-3b7d-4bad-9bdd-2b0d7b3dcb6d', 'k" OR 1=1 --', 'ünï-kind', '*', ' kind-a', '1']

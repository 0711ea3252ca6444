'''Helpers to build workspaces and boxes and to read them back independently.'''
import json
import os

from . import beadfile, gen, snap


def ws_meta(ws):
    with open(os.path.join(ws, '.bead-meta', 'bead')) as f:
        return json.load(f)


def ws_inputs(ws):
    return beadfile.normal_inputs(ws_meta(ws)['inputs'])


def ws_trees(ws):
    '''(sources, outputs) as documented to be saved'''
    code = {}
    for n in os.listdir(ws):
        if n in gen.TOP_RESERVED:
            continue
        p = os.path.join(ws, n)
        if os.path.isdir(p):
            for k, v in snap.tree_files(p).items():
                code[n + '/' + k] = v
        else:
            with open(p, 'rb') as f:
                code[n] = f.read()
    return code, snap.tree_files(os.path.join(ws, 'output'))


def is_valid_ws(ws):
    return (all(os.path.isdir(os.path.join(ws, d)) for d in ('input', 'output', 'temp'))
            and os.path.isfile(os.path.join(ws, '.bead-meta', 'bead')))


def box_records(box_dir, box_name=None):
    '''independently parsed beads of a box: list of BeadFile; broken files are skipped'''
    out = []
    for n in sorted(os.listdir(box_dir)):
        if n.endswith('.zip') and os.path.isfile(os.path.join(box_dir, n)):
            try:
                bf = beadfile.BeadFile(os.path.join(box_dir, n))
            except Exception:
                continue
            bf.box_name = box_name
            out.append(bf)
    return out


def input_tree(ws, nick):
    return snap.tree_files(os.path.join(ws, 'input', nick))


def random_inputs(rng, n=None, names=None):
    '''well-formed, unrelated input records'''
    r = {}
    for _ in range(rng.choice([0, 0, 1, 2, 4]) if n is None else n):
        nick = rng.choice(names or ['in', 'ünï', 'a b', 'x.y', '.h', "q'", 'in2', 'INPUT', '日本', '[1]'])
        r[nick] = (rng.choice(gen.KINDS), '%0128x' % rng.getrandbits(512),
                   beadfile.ts_from_instant(gen.gen_instant(rng), rng.choice(gen.OFFSETS)))
    return r


def put_bead(box_dir, rng, name, instant=None, kind=None, code=None, data=None, inputs=None, offset=None, filename=None, **kw):
    '''independently written bead in a box directory; returns BeadFile'''
    os.makedirs(box_dir, exist_ok=True)
    instant = gen.gen_instant(rng) if instant is None else instant
    ts = beadfile.ts_from_instant(instant, rng.choice(gen.OFFSETS) if offset is None else offset)
    path = os.path.join(box_dir, filename or f'{name}_{ts}.zip')
    beadfile.write_bead(
        path, kind or rng.choice(gen.KINDS), ts, name=name,
        code={'c': rng.randbytes(4)} if code is None else code,
        data={'d': rng.randbytes(4)} if data is None else data,
        inputs=inputs or {}, compression=rng.choice(gen.COMPRESSIONS), **kw)
    return beadfile.BeadFile(path)

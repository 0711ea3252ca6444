import os
import re
import time
import zipfile

from bead.ziparchive import ZipArchive
import bead.zipopener

from harness import beadfile, gen, snap
from harness.cli import User, zips

PROPERTY = 'C01'
LEVEL = 'exploration'
RULE = ('one case = a generated workspace history (new, optional inputs, 1-3 rounds of tree edits and save); every save is '
        'judged by an independent archive reader; non-trivial = a distinct (tree, inputs, compression) that was saved')
REQUIRED = {'saves': 40, 'files_compared': 500, '#save': 40}
ASSUMPTIONS = ['file names are valid unicode', 'archive layout as documented (code/, data/, meta/bead, meta/manifest)']


def plan(tier, rng):
    n = 500 if tier == 'quick' else 12000
    return [dict(feature=i if i < 4 * len(gen.FEATURES) else None) for i in range(n)]


def expected_trees(ws):
    '''what the documentation says is saved, read from the file system'''
    code, data = {}, {}
    for n in os.listdir(ws):
        if n in gen.TOP_RESERVED:
            continue
        p = os.path.join(ws, n)
        if os.path.isdir(p):
            for k, v in snap.tree_files(p).items():
                code[n + '/' + k] = v
        else:
            code[n] = open(p, 'rb').read()
    data = snap.tree_files(os.path.join(ws, 'output'))
    return code, data


def check_saved(w, u, box, name, code, data, kind, inputs, do_save):
    before = zips(box)
    before_snap = snap.snapshot(box)
    t0 = time.time_ns() // 1000
    r = do_save()
    t1 = time.time_ns() // 1000
    after = zips(box)
    new = [n for n in after if n not in before]
    w.check(len(new) == 1 and set(before) <= set(after), 'a successful save did not add exactly one archive', _stop=True,
            new=new, removed=sorted(set(before) - set(after)), out=r.out)
    after_snap = snap.snapshot(box)
    extra = [k for k in after_snap if k not in before_snap and k != new[0] and not k.startswith('.index.sqlite')]
    w.check(not extra, 'a save left something else in the box', extra=extra)
    path = os.path.join(box, new[0])
    try:
        bf = beadfile.BeadFile(path)
    except Exception as e:
        w.violate('the stored archive is not readable', _stop=True, error=repr(e), path=path)
    w.count('saves')
    w.check(not bf.problems, 'inconsistent archive', problems=bf.problems[:5])
    m = re.match(re.escape(name) + r'_(\d{8}T\d{12}[-+]\d{4})\.zip$', new[0], re.S)
    w.check(bool(m) and m.group(1) == bf.freeze_time_str, 'archive is not named after workspace and time', file=new[0], meta=bf.freeze_time_str)
    w.check(set(bf.meta) >= {'meta_version', 'kind', 'freeze_time', 'freeze_name', 'inputs'}, 'metadata incomplete', meta=bf.meta)
    w.check(bf.meta.get('freeze_name') == name, 'wrong name recorded', got=bf.meta.get('freeze_name'), want=name)
    w.check(bf.kind == kind, 'wrong kind recorded', got=bf.kind, want=kind)
    w.check(beadfile.normal_inputs(bf.inputs) == inputs, 'wrong inputs recorded', got=bf.inputs, want=inputs)
    t = bf.instant
    w.check(t0 - 1 <= t <= t1 + 1, 'the recorded moment is not the moment of saving', t0=t0, t=t, t1=t1)
    d = snap.diff_files(code, bf.code)
    w.check(not d, 'stored sources differ from the workspace', diff=d)
    d = snap.diff_files(data, bf.data)
    w.check(not d, 'stored outputs differ from the workspace', diff=d)
    w.count('files_compared', len(code) + len(data))
    with zipfile.ZipFile(path) as z:
        w.check(z.testzip() is None, 'archive fails the zip integrity test')
    try:
        ZipArchive(path, 'box').validate()
    except Exception as e:
        w.violate('the stored bead fails verification', error=repr(e))
    finally:
        bead.zipopener.close_all()
    return bf


def run_case(case, w):
    rng = w.rng
    u = User(w)
    box = u.add_box('box', 'box dir' if rng.random() < .3 else 'box')
    name = rng.choice(gen.BEAD_NAMES)
    parent = u.mkdir('work')
    ws = os.path.join(parent, name)
    u.must('new', name if not name.startswith('-') else ws, cwd=parent)
    kind = beadfile.json.load(open(os.path.join(ws, '.bead-meta', 'bead')))['kind']
    inputs = {}
    # inputs from beads written independently
    for k in range(rng.choice([0, 0, 1, 3])):
        iname = f'in{k}'
        ts = beadfile.ts_from_instant(gen.gen_instant(rng), rng.choice(gen.OFFSETS))
        ikind = rng.choice(gen.KINDS)
        src = os.path.join(box, f'{iname}_{ts}.zip')
        cid = beadfile.write_bead(src, ikind, ts, data={'f': rng.randbytes(5), 'code/x': b'1', 'output/y': b'2'}, code={'c': b''})
        nick = rng.choice([f'nick{k}', f'in {k}', f'ünï{k}', f'.n{k}', f'n{k}.d'])
        u.must('input', 'add', nick, iname, cwd=ws)
        if rng.random() < .4:
            u.must('input', 'unload', nick, cwd=ws)
        inputs[nick] = (ikind, cid, ts)
    if rng.random() < .25:
        u.must('box', 'index')
    feature = case['feature']
    out_feature = None if feature is None else feature + 3
    code = gen.gen_tree(rng, top_reserved=gen.TOP_RESERVED, big=True, feature=feature)
    data = gen.gen_tree(rng, big=True, feature=out_feature)
    gen.write_tree(ws, code, rng, decorate='hard', store=u.path('linked'))
    gen.write_tree(os.path.join(ws, 'output'), data, rng, decorate='hard', store=u.path('linked'))
    gen.write_tree(os.path.join(ws, 'temp'), gen.gen_tree(rng, 3), rng)
    if rng.random() < .5:
        gen.write_tree(os.path.join(ws, '.bead-meta'), {'extra': b'x', 'sub/more': b'y'}, rng)
    if rng.random() < .3:
        # a linked directory is saved as if it were a real one
        gen.write_tree(u.path('linkdir'), gen.gen_tree(rng, 3), rng)
        os.makedirs(u.path('linkdir', 'sub'), exist_ok=True)
        try:
            os.symlink(u.path('linkdir'), os.path.join(ws, rng.choice(['', 'output/']) + 'linked dir'))
        except FileExistsError:
            pass
    for d in ('emptydir', 'output/emptydir/sub'):
        os.makedirs(os.path.join(ws, d), exist_ok=True)
    comp = rng.choice([None, None, 'off', 'stored', 'deflated', 'bogus'])
    for round in range(rng.choice([1, 1, 2, 3])):
        if round:
            # edit the workspace between saves
            for base, reserved in ((ws, gen.TOP_RESERVED), (os.path.join(ws, 'output'), ())):
                for n in sorted(snap.tree_files(base)):
                    if n.split('/')[0] in gen.TOP_RESERVED and base == ws:
                        continue
                    p = os.path.join(base, n)
                    x = rng.random()
                    if x < .2:
                        os.unlink(p)
                    elif x < .4:
                        os.unlink(p)
                        with open(p, 'wb') as f:
                            f.write(rng.randbytes(9))
                try:
                    gen.write_tree(base, gen.gen_tree(rng, 2, top_reserved=reserved), rng)
                except OSError:
                    pass
        code, data = expected_trees(ws)
        if round == 0 and case['i'] < 2:
            w.sample(dict(name=name, compression=comp, inputs=sorted(inputs), code=sorted(code)[:12], data=sorted(data)[:12]))
        pre = snap.snapshot(ws, mtimes=True)
        args = rng.choice([['save'], ['save', 'box']])
        env = {'BEAD_ZIP_COMPRESSION': comp} if comp else None
        cwd, extra = rng.choice([(ws, []), (os.path.join(ws, 'output'), []), (parent, ['-w', ws])])
        check_saved(w, u, box, name, code, data, kind, inputs, lambda: u.must(*args, *extra, cwd=cwd, env=env))
        post = snap.snapshot(ws, mtimes=True)
        w.check(pre == post, 'saving changed the workspace', diff=snap.diff(pre, post))
        w.seen('save', [sorted((k, hash(v)) for k, v in code.items()), sorted((k, hash(v)) for k, v in data.items()), sorted(inputs), comp, name])

import os

from harness import beadfile, gen, snap
from harness.cli import User, zips
from harness.world import is_valid_ws, put_bead, random_inputs, ws_inputs, ws_meta, ws_trees

PROPERTY = 'C02'
LEVEL = 'exploration'
RULE = ('one case = a bead (saved by the tool or written independently) opened by name, by name and time, by file or into a named '
        'workspace, with or without review, then possibly re-saved and opened again; non-trivial = distinct (tree, way of opening)')
REQUIRED = {'edits': 80, 'resaves': 20, 'files_compared': 500, '#edit': 60}


def plan(tier, rng):
    n = 400 if tier == 'quick' else 10000
    return [dict(feature=i if i < 3 * len(gen.FEATURES) else None) for i in range(n)]


def empty_dirs_only(path):
    return os.path.isdir(path) and not os.listdir(path)


def check_opened(w, ws, bf, review):
    w.count('edits')
    w.check(is_valid_ws(ws), 'editing did not create a valid workspace', _stop=True, ws=ws)
    code, out = ws_trees(ws)
    d = snap.diff_files(bf.code, code)
    w.check(not d, 'sources differ from the stored ones', diff=d)
    d = snap.diff_files(bf.data if review else {}, out)
    w.check(not d, 'output area is wrong', review=review, diff=d)
    if not review:
        w.check(empty_dirs_only(os.path.join(ws, 'output')), 'output area is not empty')
    w.check(empty_dirs_only(os.path.join(ws, 'input')), 'inputs are loaded by edit', got=os.listdir(os.path.join(ws, 'input')))
    w.check(empty_dirs_only(os.path.join(ws, 'temp')), 'temporary area is not empty', got=os.listdir(os.path.join(ws, 'temp')))
    m = ws_meta(ws)
    w.check(m.get('kind') == bf.kind, 'kind is lost', got=m.get('kind'), want=bf.kind)
    w.check(ws_inputs(ws) == beadfile.normal_inputs(bf.inputs), 'recorded inputs are lost', got=m.get('inputs'), want=bf.inputs)
    w.check(sorted(os.listdir(os.path.join(ws, '.bead-meta'))) == ['bead'], 'unexpected bookkeeping', got=os.listdir(os.path.join(ws, '.bead-meta')))
    w.count('files_compared', len(bf.code) + len(bf.data))
    # everything restored is usable by its owner
    for n in list(code)[:50]:
        w.check(os.access(os.path.join(ws, n), os.R_OK | os.W_OK), 'restored source is not writable', name=n)


def run_case(case, w):
    rng = w.rng
    u = User(w)
    box = u.add_box('box')
    feature = case['feature']
    code = gen.gen_tree(rng, top_reserved=gen.TOP_RESERVED, big=True, feature=feature)
    data = gen.gen_tree(rng, big=True, feature=None if feature is None else feature + 5)
    name = rng.choice(gen.BEAD_NAMES)
    inputs = random_inputs(rng)
    work = u.mkdir('work')
    if rng.random() < .5:
        bf = put_bead(box, rng, name, code=code, data=data, inputs=inputs)
    else:
        ws = os.path.join(work, name)
        u.must('new', ws)
        gen.write_tree(ws, code, rng, decorate=True)
        gen.write_tree(os.path.join(ws, 'output'), data, rng, decorate=True)
        u.must('save', cwd=ws)
        bf = beadfile.BeadFile(os.path.join(box, zips(box)[0]))
        u.must('discard', cwd=ws)
    # other beads around: older versions, similar names
    for k in range(rng.choice([0, 0, 2])):
        put_bead(box, rng, rng.choice([name, name + '2', 'x' + name]), instant=min(bf.instant, gen.gen_instant(rng)) - 1 - k)
    if rng.random() < .3:
        u.must('box', 'index')
    for round in range(rng.choice([1, 2, 3])):
        review = rng.random() < .5
        how = rng.choice(['name', 'name', 'time', 'file', 'relfile'])
        target = rng.choice([None, f'opened {round}', os.path.join(u.mkdir('deep', 'er'), f'w{round}')])
        ws = os.path.join(work, target if target else bf.name)
        if os.path.lexists(ws):
            target = f'again{round}'
            ws = os.path.join(work, target)
        args, opts = [], []
        if how in ('name', 'time'):
            args.append(bf.name)
            if how == 'time':
                opts += ['-t', beadfile.ts_from_instant(bf.instant, rng.choice(gen.OFFSETS))]
        elif how == 'file':
            args.append(bf.path)
        else:
            args.append(os.path.relpath(bf.path, work))
        if target:
            args.append(target)
        if review:
            opts.append('--review')
        before = snap.snapshot(box)
        args = ['edit'] + (opts + args if rng.random() < .5 else args + opts)
        r = u.must(*args, cwd=work)
        check_opened(w, ws, bf, review)
        w.check(snap.snapshot(box) == before, 'edit changed the box')
        w.seen('edit', [bf.content_id, how, review, bool(target)])
        if w.rng.random() < .02:
            w.sample(dict(name=bf.name, how=how, review=review, code=sorted(bf.code)[:8], inputs=list(bf.inputs)))
        # save again
        old = zips(box)
        u.must('save', cwd=ws)
        new = [n for n in zips(box) if n not in old]
        w.check(len(new) == 1, 'save added nothing', _stop=True)
        bf2 = beadfile.BeadFile(os.path.join(box, new[0]))
        w.count('resaves')
        w.check(bf2.kind == bf.kind and beadfile.normal_inputs(bf2.inputs) == beadfile.normal_inputs(bf.inputs),
                'kind or inputs changed by an edit-save round trip', got=bf2.meta, want=bf.meta)
        d = snap.diff_files(bf.code, bf2.code)
        w.check(not d, 'sources changed by an edit-save round trip', diff=d)
        d = snap.diff_files(bf.data if review else {}, bf2.data)
        w.check(not d, 'outputs changed by an edit-save round trip', diff=d)
        bf = bf2
        # a removed workspace makes the name free again
        if rng.random() < .7:
            u.must('discard', ws, cwd=work)
            w.check(not os.path.lexists(ws), 'discard left the workspace')

import os
import re

from harness import snap
from harness.session import Session
from harness.world import input_tree, ws_inputs, is_valid_ws

PROPERTY = 'C06'
LEVEL = 'exploration'
RULE = ('one case = one random history of input commands on workspaces, interleaved with beads appearing, disappearing, being damaged, '
        'repaired, copied and indexed; after every command the whole input area is compared with independently kept bead contents; '
        'non-trivial = distinct (command, outcome, state of inputs) triples')
REQUIRED = {'input_commands': 1500, 'trees_compared': 1500, 'effects_checked': 600, '#state': 400}


def plan(tier, rng):
    n = 200 if tier == 'quick' else 3000
    return [dict(steps=30 if tier == 'quick' else 60) for i in range(n)]


def check_area(w, s, ws, op):
    rec = ws_inputs(ws)
    names = set(os.listdir(os.path.join(ws, 'input')))
    w.check(names <= set(rec), 'something in the input area that is not an input', extra=sorted(names - set(rec)), op=repr(op))
    for nick in names & set(rec):
        want = s.expected(rec[nick])
        if want is None:
            w.violate('recorded input does not describe any bead', nick=nick, record=rec[nick], op=repr(op))
            continue
        got = input_tree(ws, nick)
        d = snap.diff_files(want, got)
        w.count('trees_compared')
        w.check(not d, 'loaded input differs from the bead recorded for it', nick=nick, record=rec[nick], diff=d, op=repr(op))
    return rec, names


def effects(w, s, op, rec, names):
    r = op.result
    tolerate = bool(s.oversized)
    if r.crash is not None:
        if not tolerate:
            w.violate('input command crashed', op=repr(op), tb=(r.tb or '')[-2000:])
        return
    clean = r.ok and 'WARNING' not in re.sub('WARNING: [^:]* of different kind', '', r.err)
    w.count('clean' if clean else 'not_clean')
    others = set(op.before) - {op.nick}
    if not op.name.endswith('all'):
        for n in others:
            w.check(rec.get(n) == op.before[n] and (n in names) == (n in op.loaded_before), 'a command changed another input', other=n, op=repr(op))
    # records appear and disappear only by add and delete
    if op.name.split()[0] not in ('add', 'delete'):
        w.check(set(rec) == set(op.before), 'set of inputs changed', op=repr(op))
    if op.name.startswith('unload') or op.name.startswith('load'):
        w.check(rec == op.before, 'loading or unloading changed what is recorded', op=repr(op), before=op.before, after=rec)
    if op.name in ('add damaged', 'update damaged'):
        w.check(rec == op.before and names == op.loaded_before, 'a damaged bead changed the inputs', op=repr(op))
        return
    if not clean:
        if op.name == 'update all':
            # those for which there was a bead are updated nevertheless
            changed = {n for n in rec if rec[n] != op.before[n]}
            w.check(changed <= names, 'a failed update changed what is recorded', op=repr(op), changed=sorted(changed))
        elif not tolerate:
            w.check(rec == op.before and (names == op.loaded_before or op.name == 'load all'), 'an unsuccessful command changed the inputs', op=repr(op))
        return
    w.count('effects_checked')
    if op.name in ('add', 'update file'):
        want = (op.bead.kind, op.bead.content_id, op.bead.freeze_time_str)
        w.check(rec.get(op.nick) == want and op.nick in names, 'successful add/update did not load the bead', op=repr(op), record=rec.get(op.nick), want=want)
    elif op.name in ('load', 'update', 'step'):
        w.check(op.nick in names, 'successful load/update, data is not present', op=repr(op))
    elif op.name in ('load all', 'update all'):
        w.check(names == set(rec), 'successful load of all, but something is not present', op=repr(op), missing=sorted(set(rec) - names))
    elif op.name == 'unload':
        w.check(op.nick not in names, 'unloaded data is present', op=repr(op))
    elif op.name == 'unload all':
        w.check(not names, 'unloaded data is present', op=repr(op), names=sorted(names))
    elif op.name == 'delete':
        w.count(f'deleted_{"loaded" if op.nick in op.loaded_before else "unloaded"}_from_{"many" if len(op.before) > 2 else "few"}')
        w.check(op.nick not in names and op.nick not in rec, 'deleted input is present', op=repr(op))


def run_case(case, w):
    s = Session(w, boxes=w.rng.choice([1, 2, 3]), beads=w.rng.choice([4, 8, 12]), workspaces=w.rng.choice([1, 1, 2]))
    # many inputs from the start
    first = w.rng.choice([0, 0, 6, 9])
    for step in range(case['steps']):
        if w.rng.random() < .2:
            s.environment()
            continue
        op = s.input_op(forced='add' if step < first else None)
        if op is None:
            continue
        for ws in s.workspaces:
            w.check(is_valid_ws(ws), 'workspace became invalid', op=repr(op), _stop=True)
            rec, names = check_area(w, s, ws, op)
            if ws == op.ws:
                effects(w, s, op, rec, names)
                w.seen('state', [op.name, op.result.ok, sorted((n, v[1], n in names) for n, v in rec.items())])
                if len(rec) > 2:
                    w.sample(dict(op=op.name, inputs={n: [v[1][:8], n in names] for n, v in rec.items()}))
            else:
                pass

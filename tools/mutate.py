#!/usr/bin/env python3
'''
mutate.py gen OUT.jsonl            - generate single-site mutants of /repo's non-test sources, keep those that pass its tests
mutate.py check IN.jsonl OUT.jsonl - run the checks (those of the file first, few cases of the slow ones) against the survivors, in scratch copies

A measure of the checks: mutants that pass the repository's tests and are not reported by any check are to be looked at by a human:
they are equivalent, outside of the properties, or show a hole.
'''
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUTATE_REPO', '/repo')
SKIP = ('tests', 'dev', 'conftest.py', 'dummy.py', 'tracelog.py')
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}


def sources():
    for top, ds, fs in os.walk(REPO):
        ds[:] = [d for d in ds if not d.startswith('.') and d not in SKIP]
        for f in fs:
            if f.endswith('.py') and not f.startswith('test_') and f not in SKIP:
                yield os.path.relpath(os.path.join(top, f), REPO)


def mutants(path):
    text = open(os.path.join(REPO, path)).read()
    lines = text.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))
    data = text.encode()
    at = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    src = lambda n: data[at(n)[0]:at(n)[1]].decode()
    tree = ast.parse(text)
    for parent in ast.walk(tree):
        for child in ast.iter_child_nodes(parent):
            child.parent = parent
    out = []

    def put(node, new, why):
        a, b = at(node)
        old = data[a:b].decode()
        if new != old:
            out.append(dict(path=path, line=node.lineno, a=a, b=b, old=old, new=new, why=why))
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                put(n, f'({src(n.left)} {op} {src(n.comparators[0])})', 'compare')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + op.join(f'({src(v)})' for v in n.values) + ')', 'and/or')
            for i in range(len(n.values)):
                rest = n.values[:i] + n.values[i + 1:]
                sep = ' and ' if isinstance(n.op, ast.And) else ' or '
                put(n, '(' + sep.join(f'({src(v)})' for v in rest) + ')', 'drop operand')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            put(n.test, 'True', 'if True')
            put(n.test, 'False', 'if False') if not isinstance(n, ast.While) else None
        elif isinstance(n, ast.comprehension):
            for t in n.ifs:
                put(t, 'True', 'comprehension if')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, f'({src(n.operand)})', 'drop not')
        elif isinstance(n, ast.BinOp):
            swap = {ast.Add: '-', ast.Sub: '+', ast.BitOr: '&', ast.BitAnd: '|', ast.Mult: '//', ast.FloorDiv: '*'}.get(type(n.op))
            if swap:
                put(n, f'({src(n.left)} {swap} {src(n.right)})', 'arithmetic')
        elif isinstance(n, ast.Constant) and not isinstance(n.parent, ast.Expr):
            if n.value is True or n.value is False:
                put(n, repr(not n.value), 'constant')
            elif type(n.value) is int:
                put(n, repr(n.value + 1), 'constant')
                put(n, repr(n.value - 1), 'constant')
        elif isinstance(n, ast.Call):
            name = src(n.func)
            if name in ('sorted', 'set', 'list', 'reversed', 'frozenset', 'os.path.realpath', 'os.path.abspath', 'tuple', 'str') and len(n.args) == 1:
                put(n, f'({src(n.args[0])})', f'drop {name}')
            if name in ('min', 'max', 'any', 'all'):
                put(n.func, dict(min='max', max='min', any='all', all='any')[name], 'swap')
            for k in n.keywords:
                if k.arg:
                    args = [src(x) for x in n.args] + [(f'{x.arg}=' if x.arg else '**') + src(x.value) for x in n.keywords if x is not k]
                    put(n, f'{name}({", ".join(args)})', 'drop keyword')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('resolve', 'absolute', 'strip', 'lower', 'copy', 'casefold', 'rstrip') and not n.args:
                put(n, f'({src(n.func.value)})', 'drop method')
        if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield, ast.Await)) or isinstance(n, (ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete)):
            put(n, 'pass', 'drop statement')
        elif isinstance(n, ast.Assign) and not isinstance(n.parent, (ast.Module, ast.ClassDef)) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            put(n, 'pass', 'drop assignment')
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            put(n, 'return None', 'return None')
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            if isinstance(n.type, ast.Tuple):
                for i in range(len(n.type.elts)):
                    rest = n.type.elts[:i] + n.type.elts[i + 1:]
                    put(n.type, '(' + ''.join(src(e) + ', ' for e in rest) + ')', 'except less')
            else:
                put(n.type, '()', 'except less')
        elif isinstance(n, ast.With) and len(n.items) == 1 and n.items[0].optional_vars is None:
            body = n.body
            a, b = at(n)
            out.append(dict(path=path, line=n.lineno, a=a, b=at(body[0])[0], old=data[a:at(body[0])[0]].decode(), new='if True:\n' + ' ' * body[0].col_offset, why='drop with'))
        elif isinstance(n, ast.Try) and n.finalbody:
            for s in n.finalbody:
                pass
    seen, result = set(), []
    for m in out:
        k = (m['a'], m['b'], m['new'])
        new = data[:m['a']] + m['new'].encode() + data[m['b']:]
        try:
            ok = ast.dump(ast.parse(new)) != ast.dump(tree)
        except SyntaxError:
            ok = False
        if ok and k not in seen:
            seen.add(k)
            result.append(m)
    return result


def apply(m, repo):
    p = os.path.join(repo, m['path'])
    data = open(os.path.join(REPO, m['path']), 'rb').read()
    with open(p, 'wb') as f:
        f.write(data[:m['a']] + m['new'].encode() + data[m['b']:])


def restore(m, repo):
    shutil.copyfile(os.path.join(REPO, m['path']), os.path.join(repo, m['path']))


def passes_tests(m, repo):
    apply(m, repo)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', LC_ALL='C.UTF-8', PYTHONPATH=repo)
    base = tempfile.mkdtemp(prefix='mt-')
    try:
        r = subprocess.run(['setpriv', '--inh-caps=-dac_override', '--bounding-set=-dac_override', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', f'--basetemp={base}/b'],
                           cwd=repo, env=env, capture_output=True, text=True, timeout=90, stdin=subprocess.DEVNULL)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False
    finally:
        shutil.rmtree(base, ignore_errors=True)
        restore(m, repo)


def worker(job):
    ms, n = job
    t = tempfile.mkdtemp(prefix='mutate-')
    repo = os.path.join(t, 'repo')
    found = []
    try:
        subprocess.run(['git', 'clone', '-q', REPO, repo], check=True)
        for m in ms:
            if passes_tests(m, repo):
                found.append(m)
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return found


def gen(out):
    ms = [m for p in sorted(sources()) for m in mutants(p)]
    random.Random(1).shuffle(ms)
    ms = ms[int(os.environ.get('START', 0)):]
    print(len(ms), 'mutants', flush=True)
    n = int(os.environ.get('JOBS', 8))
    chunks = [ms[i:i + 10] for i in range(0, len(ms), 10)]
    total = 0
    with open(out, 'a') as f, concurrent.futures.ProcessPoolExecutor(n) as pool:
        for i, found in enumerate(pool.map(worker, [(c, 0) for c in chunks])):
            for m in found:
                f.write(json.dumps(m) + '\n')
                f.flush()
            total += len(found)
            if i % 10 == 0:
                print((i + 1) * 10, 'tried', total, 'pass the tests', flush=True)


# the checks most likely to notice a change of a file (others are not run unless ALL is set)
FIRST = {
    'bead/workspace.py': 'C37 C32 C28 C01 C02 C24 C14 C22 C12 C07 C06 C25', 'bead/ziparchive.py': 'C32 C04 C02 C01 C03 C05 C11 C23 C12', 'bead/box.py': 'C37 C08 C18 C10 C11 C30 C12 C15 C24', 'bead/box_index.py': 'C36 C32 C09 C08 C30 C15 C11',
    'bead/box_rawfs.py': 'C37 C36 C08 C30 C11 C10 C09', 'bead/meta.py': 'C34 C32 C01 C11 C04 C18 C06', 'bead/zipopener.py': 'C36 C23 C10', 'bead/tech/fs.py': 'C22 C07 C13 C14 C31', 'bead/tech/timestamp.py': 'C17 C08 C31', 'bead/tech/persistence.py': 'C13 C01 C03',
    'bead/tech/securehash.py': 'C03 C04', 'bead/tech/identifier.py': 'C26', 'bead/bead.py': 'C08 C11 C10', 'bead/layouts.py': 'C01 C02', 'bead/exceptions.py': 'C24',
    'bead_cli/workspace.py': 'C35 C24 C27 C02 C31 C28 C18 C25', 'bead_cli/input.py': 'C32 C06 C18 C24 C14 C31 C07 C33', 'bead_cli/box.py': 'C32 C16 C30 C24 C09 C31 C33', 'bead_cli/common.py': 'C24 C18 C31 C28', 'bead_cli/main.py': 'C31 C24 C34',
    'bead_cli/cmdparse.py': 'C31 C24', 'bead_cli/environment.py': 'C37 C34 C32 C16 C13 C15',
}
WEB = 'C32 C29 C19 C20 C21 C31 C24'


def check(inp, out):
    ms = [json.loads(l) for l in open(inp)]
    done = set()
    if os.path.exists(out):
        done = {(r['path'], r['a'], r['b'], r['new']) for r in map(json.loads, open(out))}
    t = tempfile.mkdtemp(prefix='mutate-')
    os.chmod(t, 0o755)
    repo, v = os.path.join(t, 'repo'), os.path.join(t, 'verif')
    try:
        subprocess.run(['git', 'clone', '-q', REPO, repo], check=True)
        shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
        with open(out, 'a') as f:
            for m in ms:
                if (m['path'], m['a'], m['b'], m['new']) in done:
                    continue
                apply(m, repo)
                checks = (FIRST.get(m['path']) or (WEB if '/web/' in m['path'] else 'C31 C24')).split()
                m['by'], t0 = None, time.time()
                for c in checks:
                    r = subprocess.run(['python3', 'run.py', c], cwd=v, env=dict(os.environ, VERIF_REPO=repo, VERIF_TIER='quick', VERIF_SEED='1', VERIF_EVERY=os.environ.get('EVERY', '1')), capture_output=True, text=True, errors='replace')
                    if r.returncode == 1:
                        what = [l for l in r.stdout.splitlines() if 'violated' in l][:1]
                        m['by'], m['rc'], m['what'] = c, r.returncode, (what[0].strip() if what else r.stderr[-300:])
                        break
                m['seconds'] = round(time.time() - t0, 1)
                restore(m, repo)
                f.write(json.dumps(m) + '\n')
                f.flush()
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == '__main__':
    {'gen': gen, 'check': check}[sys.argv[1]](*sys.argv[2:])

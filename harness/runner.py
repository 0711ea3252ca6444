'''
Runs the cases of one check on all cores, as an unprivileged user, and decides.

A check module provides

    PROPERTY, LEVEL, RULE, TECHNIQUE
    plan(tier, rng) -> list of JSON-able case dicts (each gets 'i' and 'seed')
    run_case(case, w) -> None, reports through the worker context w
    REQUIRED = {counter: minimum}   below which the run is inconclusive
    NEEDS_SHIM (optional)

Verdicts: 0 held on everything observed, 1 violated, 2 inconclusive/error.
'''
import gc
import hashlib
import json
import os
import random
import shutil
import signal
import stat
import struct
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
UID = 61234
CASE_SECONDS = 150
TOTAL_SECONDS = {'quick': 800, 'thorough': 6 * 3600}


class CaseTimeout(BaseException):
    pass


class StopCase(Exception):
    '''The case can not go on after a violation.'''


def force_rmtree(path):
    '''remove a scratch tree, whatever its permissions; never follows links'''
    path = os.fspath(path)
    if os.path.islink(path) or not os.path.isdir(path):
        try:
            os.unlink(path)
        except FileNotFoundError:
            pass
        return
    for root, dirs, files in os.walk(path, followlinks=False):
        try:
            os.chmod(root, 0o700)
        except OSError:
            pass
        for d in dirs:
            p = os.path.join(root, d)
            if not os.path.islink(p):
                try:
                    os.chmod(p, 0o700)
                except OSError:
                    pass
    shutil.rmtree(path, ignore_errors=True)


def stable_hash(obj):
    return hashlib.sha256(
        json.dumps(obj, sort_keys=True, default=repr).encode('utf-8', 'surrogatepass')).hexdigest()[:16]


class Worker:
    '''Context handed to run_case.'''

    def __init__(self, property_id, tier, base):
        self.property = property_id
        self.tier = tier
        self.base = base            # worker's own scratch directory
        self.counters = {}
        self.distinct = {}
        self.samples = []
        self.violations = []
        self.notes = []
        self.case = None
        self.rng = None
        self.dir = None
        self.trace = []

    # ---- reporting
    def count(self, key, n=1):
        old = self.counters.get(key, 0)
        self.counters[key] = max(old, n) if key.startswith('max_') else old + n

    def seen(self, key, obj):
        '''register a distinct, non trivial observation'''
        self.distinct.setdefault(key, set()).add(stable_hash(obj))

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def note(self, text):
        if len(self.notes) < 20:
            self.notes.append(text)

    def log(self, *event):
        self.trace.append([repr(e) if not isinstance(e, (str, int, type(None), list, dict)) else e for e in event])

    def violate(self, what, _stop=False, **details):
        self.count('violations')
        survey = os.environ.get('VERIF_SURVEY')
        if survey:
            # all violations, for development
            with open(survey, 'a') as f:
                f.write(json.dumps(dict(what=what, details=details, case=self.case), default=repr) + '\n')
        if len(self.violations) < 5:
            self.violations.append(dict(
                property=self.property, what=what, details=details,
                case=self.case, trace=self.trace[-60:]))
        if _stop:
            raise StopCase(what)

    def check(self, ok, what, _stop=False, **details):
        self.count('assertions')
        if not ok:
            self.violate(what, _stop=_stop, **details)
        return ok

    def known(self, key, what, **details):
        '''a violation, unless it is listed in the known findings file'''
        if any(key == k for k, _ in load_known_findings(self.property)):
            self.count('assertions')
            self.count(f'known:{key}')
        else:
            self.violate(what, **details)

    def export(self):
        return dict(
            counters=self.counters,
            distinct={k: sorted(v) for k, v in self.distinct.items()},
            samples=self.samples, violations=self.violations, notes=self.notes)


def in_repo(tb):
    '''does the traceback pass through the code under test?'''
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.realpath(REPO) + '/'):
            return True
        tb = tb.tb_next
    return False


def run_one(module, case, w):
    w.case = case
    w.rng = random.Random(case['seed'])
    w.trace = []
    w.dir = os.path.join(w.base, f"c{case['i']}")
    os.mkdir(w.dir)
    error = None
    try:
        signal.alarm(CASE_SECONDS)
        try:
            module.run_case(case, w)
        finally:
            signal.alarm(0)
        w.count('cases')
    except StopCase:
        w.count('cases')
    except CaseTimeout:
        error = f'case {case} timed out\n' + traceback.format_exc()
    except BaseException as e:
        if in_repo(e.__traceback__):
            w.violate('unexpected exception from the code under test', exception=traceback.format_exc()[-3000:])
        else:
            error = f'case {case}\n' + traceback.format_exc()
    finally:
        os.chdir(w.base)
        reset_code_under_test()
        force_rmtree(w.dir)
    return error


def reset_code_under_test():
    zo = sys.modules.get('bead.zipopener')
    if zo is not None:
        try:
            zo.close_all()
        except Exception:
            pass


def _alarm(_sig, _frm):
    raise CaseTimeout()


def drop_privileges():
    if os.getuid() == 0:
        try:
            os.setgroups([])
            os.setgid(UID)
            os.setuid(UID)
        except OSError:
            return False
    return os.getuid() != 0


def become_worker(module, tier, base):
    os.mkdir(base)
    if os.getuid() == 0:
        try:
            os.chown(base, UID, UID)
        except OSError:
            pass
    dropped = drop_privileges()
    os.umask(0o022)
    home = os.path.join(base, 'home')
    os.mkdir(home)
    os.environ['HOME'] = home
    os.environ['XDG_CONFIG_HOME'] = os.path.join(home, '.config')
    os.environ['TMPDIR'] = home
    tempfile.tempdir = None
    for k in ('BEAD_ZIP_COMPRESSION', 'TRACELOG'):
        os.environ.pop(k, None)
    os.chdir(base)
    signal.signal(signal.SIGALRM, _alarm)
    w = Worker(module.PROPERTY, tier, base)
    w.unprivileged = dropped
    return w


def worker_main(module, tier, base, cases, fd, out):
    status = 1
    try:
        w = become_worker(module, tier, base)
        errors = []
        if hasattr(module, 'setup_worker'):
            module.setup_worker(w)
        while True:
            b = os.read(fd, 4)
            if len(b) < 4:
                break
            (i,) = struct.unpack('<I', b)
            e = run_one(module, cases[i], w)
            if e:
                errors.append(e)
                if len(errors) >= 3:
                    break
            if len(w.violations) >= 3:
                break
            if i % 16 == 0:
                gc.collect()
        r = w.export()
        r['errors'] = errors
        r['unprivileged'] = w.unprivileged
        with os.fdopen(out, 'w') as f:
            json.dump(r, f, default=repr)
        status = 0
    except BaseException:
        traceback.print_exc(file=sys.__stderr__)
    finally:
        sys.__stderr__.flush()
        os._exit(status)


def build_shim():
    '''returns path of the compiled shim'''
    src = os.path.join(VERIF, 'shim', 'shim.c')
    digest = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    for d in (os.path.join(VERIF, 'build'), os.path.join(tempfile.gettempdir(), 'verif-build')):
        so = os.path.join(d, f'shim-{digest}.so')
        if os.path.exists(so):
            return so
        try:
            os.makedirs(d, exist_ok=True)
            tmp = so + f'.{os.getpid()}'
            subprocess.run(
                ['gcc', '-O1', '-fPIC', '-shared', '-Wall', '-o', tmp, src, '-ldl', '-lpthread'], check=True)
            os.chmod(tmp, 0o755)
            os.replace(tmp, so)
            return so
        except (OSError, subprocess.CalledProcessError) as e:
            print('shim build failed in', d, e, file=sys.stderr)
    raise SystemExit(2)


def load_known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.txt')
    found = []
    try:
        for line in open(path):
            line = line.strip()
            if line.startswith(f'known: property={prop} '):
                # known: property=Cxx key=<mechanism key> <text>
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' ')
                found.append((key[len('key='):], text))
    except FileNotFoundError:
        pass
    return found


def main(module):
    for stream in sys.stdout, sys.stderr:
        stream.reconfigure(errors='backslashreplace')
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in TOTAL_SECONDS:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = module.PROPERTY
    rng = random.Random(f'{prop}/{seed}')
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        replay = json.load(open(sys.argv[3]))
        cases = [replay['case']]
    else:
        cases = module.plan(tier, rng)
        for i, c in enumerate(cases):
            c['i'] = i
            c.setdefault('seed', rng.getrandbits(60))
        only = os.environ.get('VERIF_ONLY')
        if only:
            cases = [c for c in cases if str(c['i']) in only.split(',')]
        # (tools/mutate.py takes a first look with a part of the cases)
        cases = cases[::int(os.environ.get('VERIF_EVERY', '1'))]
    nproc = min(int(os.environ.get('VERIF_JOBS', '8')), max(1, len(cases)))
    base = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    os.chmod(base, 0o711)
    deadline = t0 + TOTAL_SECONDS[tier]
    results, errors = [], []
    try:
        r, wfd = os.pipe()
        pids, outs = [], []
        sys.stdout.flush()
        for n in range(nproc):
            orfd, owfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(wfd)
                os.close(orfd)
                for o in outs:
                    os.close(o)
                os.setpgid(0, 0)
                worker_main(module, tier, os.path.join(base, f'w{n}'), cases, r, owfd)
            try:
                os.setpgid(pid, pid)
            except OSError:
                pass
            os.close(owfd)
            pids.append(pid)
            outs.append(orfd)
        os.close(r)
        feeder = os.fork()
        if feeder == 0:
            signal.signal(signal.SIGPIPE, signal.SIG_DFL)
            for o in outs:
                os.close(o)
            for k in range(len(cases)):
                os.write(wfd, struct.pack('<I', k))
            os._exit(0)
        os.close(wfd)
        import selectors
        sel = selectors.DefaultSelector()
        buf = {o: b'' for o in outs}
        for o in outs:
            sel.register(o, selectors.EVENT_READ)
        open_fds = set(outs)
        while open_fds and time.time() < deadline:
            for key, _ in sel.select(timeout=5):
                data = os.read(key.fd, 1 << 16)
                if data:
                    buf[key.fd] += data
                else:
                    sel.unregister(key.fd)
                    open_fds.discard(key.fd)
        if open_fds:
            errors.append('deadline reached, workers killed')
        for pid in pids:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            os.kill(feeder, signal.SIGKILL)
        except OSError:
            pass
        for pid in pids + [feeder]:
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        for o in outs:
            try:
                results.append(json.loads(buf[o]))
            except ValueError:
                errors.append('a worker died without result')
    finally:
        force_rmtree(base)
    return conclude(module, tier, seed, t0, cases, results, errors, bool(replay))


def conclude(module, tier, seed, t0, cases, results, errors, is_replay):
    prop = module.PROPERTY
    counters, distinct, samples, violations, notes = {}, {}, [], [], []
    for r in results:
        for k, v in r['counters'].items():
            if k.startswith('max_'):
                counters[k] = max(counters.get(k, 0), v)
            else:
                counters[k] = counters.get(k, 0) + v
        for k, v in r['distinct'].items():
            distinct.setdefault(k, set()).update(v)
        samples += r['samples']
        violations += r['violations']
        errors += r['errors']
        notes += r['notes']
    if results and not all(r.get('unprivileged') for r in results):
        notes.append('could not drop privileges: permission based monitors were weakened')

    # known findings
    known = load_known_findings(prop)
    classify = getattr(module, 'classify', lambda v: None)
    listed, fresh = {}, []
    for v in violations:
        key = classify(v)
        if key is not None and any(key == k for k, _ in known):
            listed[key] = v
        else:
            fresh.append(v)
    for key, text in known:
        if key in listed or counters.get(f'known:{key}') or getattr(module, 'known_always', False):
            print(f'KNOWN-FINDING: property={prop} {text}')

    inconclusive = []
    if not is_replay:
        for k, minimum in module.REQUIRED.items():
            have = len(distinct[k[1:]]) if k.startswith('#') and k[1:] in distinct else counters.get(k, 0)
            if have < minimum:
                inconclusive.append(f'monitor observed too little: {k} = {have} < {minimum}')

    main_distinct = set()
    for v in distinct.values():
        main_distinct |= v
    coverage = dict(
        evaluations=counters.get('cases', 0),
        distinct_nontrivial=len(main_distinct),
        rule=module.RULE,
        samples=samples[:6],
        observed={k: v for k, v in sorted(counters.items())},
        distinct={k: len(v) for k, v in sorted(distinct.items())},
        planned_cases=len(cases),
    )
    if hasattr(module, 'explain'):
        coverage['explanation'] = module.explain
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=module.LEVEL, coverage=coverage,
        assumptions=list(getattr(module, 'ASSUMPTIONS', [])) + sorted(set(notes))[:10],
        wall_s=round(time.time() - t0, 2), violations=len(fresh))
    text = json.dumps(evidence, indent=1, default=repr)
    if len(text) > 60000:
        coverage['samples'] = [str(s)[:2000] for s in coverage['samples'][:2]]
        text = json.dumps(evidence, indent=1, default=repr)
    if not is_replay:
        ed = os.path.join(VERIF, 'evidence')
        os.makedirs(ed, exist_ok=True)
        tmp = os.path.join(ed, f'.{prop}.json.tmp')
        with open(tmp, 'w') as f:
            f.write(text)
        os.replace(tmp, os.path.join(ed, f'{prop}.json'))

    obs = ' '.join(f'{k}={v}' for k, v in sorted(counters.items()))
    print(f'{prop} tier={tier} seed={seed} cases={counters.get("cases", 0)} '
          f'distinct={len(main_distinct)} wall={time.time() - t0:.1f}s :: {obs}')
    if fresh:
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f'{prop}-{stable_hash(fresh[0])}.json')
        with open(path, 'w') as f:
            json.dump(fresh[0], f, indent=1, default=repr)
        for v in fresh[:3]:
            print('  violated:', v['what'])
            for k, d in list(v['details'].items())[:8]:
                print('     ', k, '=', str(d)[:600])
        print(f'VIOLATION property={prop} replay={path}')
        sys.stdout.flush()
        return 1
    if errors or inconclusive:
        for e in errors[:4]:
            print('ERROR', e, file=sys.stderr)
        for e in inconclusive:
            print('INCONCLUSIVE', e, file=sys.stderr)
        return 2
    return 0

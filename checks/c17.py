import json
import os
import re
import subprocess
import sys
import zoneinfo
from datetime import datetime, timedelta, timezone

from bead.tech.timestamp import time_from_timestamp, time_from_user

from harness import beadfile, faults, gen
from harness.cli import User, zips
from harness.world import put_bead, ws_inputs

PROPERTY = 'C17'
NEEDS_SHIM = True
LEVEL = 'exploration'
RULE = ('one case = one time zone (a process of its own with TZ set, clock set to many instants around its offset changes, time stamps made and read back, beads saved), '
        'or a batch of generated time specifications compared with independent readers, or a box with beads around an instant queried from the command line; '
        'non-trivial = distinct (zone, offset) pairs and distinct (format or mutation, verdict) pairs')
REQUIRED = {'zones': 150, 'stamps': 10000, 'around_changes': 3000, 'saves': 400, 'ambiguous_local_times': 800, 'formats': 4000, 'deltas': 1500, 'refused': 3000, 'compared': 4000,
            'cli_time': 300, 'cli_refused': 60, 'cli_delta': 40, '#offset': 150, '#format': 40}
ASSUMPTIONS = ['zone rules of the system (zoneinfo) are only used to choose instants, the recorded stamp is judged by arithmetic alone',
               'an absolute time without an offset is UTC']

EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
POSIX = ['EST5EDT,M3.2.0,M11.1.0', 'XXX-1:30', 'XXX+1:30', '<+0545>-5:45', '<-03>3<-02>,M3.5.0/-2,M10.5.0/-1', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0', 'XXX-14', 'XXX12', 'AAA-23:59', 'BBB23:59', 'XXX-1:23:45', 'XXX1:23:45',
         'IST-1GMT0,M10.5.0,M3.5.0/1', 'UTC0', '', 'Bad/Zone', '<-00>0', 'AAA0:00:30', 'NZST-12:00:00NZDT-13:00:00,M10.1.0,M3.3.0']
FAVOURITES = ['Europe/Budapest', 'America/New_York', 'Europe/London', 'Europe/Dublin', 'Australia/Lord_Howe', 'Asia/Kathmandu', 'America/St_Johns', 'Pacific/Apia', 'Pacific/Chatham', 'Africa/Casablanca',
              'Asia/Pyongyang', 'Europe/Moscow', 'America/Caracas', 'Pacific/Kiritimati', 'Pacific/Marquesas', 'Asia/Kolkata', 'America/Sao_Paulo', 'Antarctica/Troll', 'Africa/Cairo', 'Europe/Istanbul',
              'Asia/Gaza', 'Asia/Tehran', 'Africa/Juba', 'Europe/Volgograd', 'America/Godthab', 'Etc/GMT+12', 'Etc/GMT-14', 'UTC']

DRIVER = r'''
import ctypes, json, os, sys
from datetime import datetime, timedelta, timezone
job = json.loads(sys.stdin.read())
L = ctypes.CDLL(os.environ['LD_PRELOAD'])
L.shim_clock.argtypes = [ctypes.c_int, ctypes.c_longlong, ctypes.c_longlong]
from bead.tech.timestamp import timestamp, time_from_timestamp, time_from_user
from bead_cli.main import run
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
def us(t): return (t - EPOCH) // timedelta(microseconds=1)
out = dict(stamps=[], deltas=[], saves=[])
for t in job['instants']:
    L.shim_clock(1, t, 0)
    try:
        s = timestamp()
        r = [s, us(time_from_timestamp(s))]
    except Exception as e:
        r = ['', repr(e)]
    out['stamps'].append(r)
for t, d in job['deltas']:
    L.shim_clock(1, t, 0)
    try:
        r = us(time_from_user(d))
    except Exception as e:
        r = repr(e)
    out['deltas'].append(r)
L.shim_clock(0, 0, 0)
import contextlib, io
for t in job['saves']:
    had = set(os.listdir(job['box']))
    L.shim_clock(1, t, 0)
    with contextlib.redirect_stdout(io.StringIO()):
        code = run(job['config'], ['save', '-w', job['ws']])
    L.shim_clock(0, 0, 0)
    out['saves'].append([code, sorted(set(os.listdir(job['box'])) - had)])
print('RESULT' + json.dumps(out))
'''


def plan(tier, rng):
    zones = sorted(zoneinfo.available_timezones() - {'localtime', 'posixrules', 'Factory'})
    favourites = [z for z in FAVOURITES if z in zones]
    others = [z for z in zones if z not in favourites]
    rng.shuffle(others)
    chosen = favourites + others[:140 if tier == 'quick' else None]
    chosen += [z for z in POSIX]
    cases = [dict(mode='zones', zones=chosen[i:i + 4], per_zone=80 if tier == 'quick' else 600) for i in range(0, len(chosen), 4)]
    cases += [dict(mode='formats', n=700 if tier == 'quick' else 6000) for _ in range(8 if tier == 'quick' else 40)]
    cases += [dict(mode='cli', n=25 if tier == 'quick' else 150) for _ in range(32 if tier == 'quick' else 150)]
    return cases


def run_case(case, w):
    dict(zones=zones_case, formats=formats_case, cli=cli_case)[case['mode']](case, w)


# ---- zones
def changes(name, rng):
    '''instants (seconds) where the offset changes after 2000'''
    try:
        z = zoneinfo.ZoneInfo(name)
    except Exception:
        return []
    out = []
    t, end, step = 946684800, 2145916800, 86400 * 20

    def off(s):
        return datetime.fromtimestamp(s, z).utcoffset()
    prev = off(t)
    while t < end:
        nxt = off(t + step)
        if nxt != prev:
            lo, hi = t, t + step
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if off(mid) == prev:
                    lo = mid
                else:
                    hi = mid
            out.append((hi, (nxt - prev).total_seconds()))
            prev = nxt
        t += step
    return out


def zones_case(case, w):
    rng = w.rng
    u = User(w)
    box = u.add_box('box')
    ws = u.path('ws')
    u.must('new', ws)
    for zone in case['zones']:
        w.count('zones')
        ch = changes(zone, rng)
        instants = [gen.gen_instant(rng) for _ in range(10)]
        for s, jump in (ch if len(ch) <= case['per_zone'] // 8 else rng.sample(ch, case['per_zone'] // 8)):
            j = abs(int(jump))
            for d in (-j - 1, -j, -j // 2, -1, 0, 1, j // 2, j - 1, j, j + 1):
                instants.append((s + d) * 1_000_000 + rng.choice([0, 0, 1, 999_999, 500_000, rng.randrange(10 ** 6)]))
                w.count('around_changes')
                if jump < 0 and -j <= d < j:
                    w.count('ambiguous_local_times')
        # some known kinds of rules even without zone data
        for y in (2024, 2025):
            for m, d in ((3, 9), (3, 10), (3, 30), (3, 31), (10, 26), (10, 27), (11, 2), (11, 3)):
                instants.append((datetime(y, m, d, rng.randrange(24), rng.choice([0, 30, 59]), 0, tzinfo=timezone.utc) - EPOCH) // timedelta(microseconds=1))
        deltas = [(rng.choice(instants), gen_delta(rng)) for _ in range(12)]
        saves = rng.sample(instants, 3) if rng.random() < .5 else sorted(instants[-30:], key=lambda _: rng.random())[:3]
        job = dict(instants=instants, deltas=[[t, d] for t, (d, _) in deltas], saves=saves, box=box, ws=ws, config=u.config)
        env = dict(os.environ, TZ=zone, HOME=u.home)
        p = subprocess.run([sys.executable, '-c', DRIVER], input=json.dumps(job), env=env, cwd=u.root, capture_output=True, text=True)
        if not w.check(p.returncode == 0 and 'RESULT' in p.stdout, 'time stamps or saves fail in a zone', zone=zone, err=p.stderr[-1500:], out=p.stdout[-300:]):
            continue
        out = json.loads(p.stdout.split('RESULT')[1])
        for t, (s, back) in zip(instants, out['stamps']):
            w.count('stamps')
            try:
                got = beadfile.instant(s)
            except ValueError:
                got = None
            w.check(got == t, 'time stamp does not denote the moment it was made', zone=zone, at=t, stamp=s, off_by=(got - t) / 1e6 if got is not None else None)
            w.check(back == t, 'reading the time stamp back yields another moment', zone=zone, at=t, stamp=s, back=back)
            w.seen('offset', [zone, s[-5:]])
        for (t, (d, delta)), got in zip(deltas, out['deltas']):
            w.count('deltas')
            w.check(got == t + delta, 'relative time is not that far from now', zone=zone, now=t, spec=d, got=got, want=t + delta)
        for t, (code, new) in zip(saves, out['saves']):
            w.count('saves')
            if not w.check(code in (0, None) and len(new) == 1, 'save fails in a zone', zone=zone, at=t, code=code, new=new):
                continue
            bf = beadfile.BeadFile(os.path.join(box, new[0]))
            try:
                got = bf.instant
            except ValueError:
                got = None
            w.check(got == t, 'time recorded for a saved bead is not the moment of saving', zone=zone, at=t, recorded=bf.freeze_time_str)
            w.check(beadfile.instant(new[0][len('ws_'):-len('.zip')]) == t if got is not None else True, 'time in the name of the archive is not the moment of saving', zone=zone, at=t, file=new[0])
        for n in zips(box):
            os.unlink(os.path.join(box, n))
    w.sample(dict(zones=case['zones']))


# ---- formats
def gen_delta(rng):
    '''(specification, microseconds)'''
    total, spec = 0, ''
    for _ in range(rng.choice([1, 1, 1, 2, 3, 5])):
        unit, size = rng.choice([('w', 604800), ('d', 86400), ('H', 3600), ('M', 60), ('S', 1)])
        n = rng.choice([0, 1, 2, 7, 24, 60, 100, rng.randrange(1000)])
        sign = rng.choice(['', '+', '-', '-'])
        total += n * size * (-1 if sign == '-' else 1)
        spec += f'{sign}{rng.choice(["", "", "0"])}{n}{unit}'
    return spec, total * 1_000_000


def days_in(y, m):
    return [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


FORMATS = ['Y', 'YM', 'Y-M', 'YMD', 'Y-M-D', 'YMDThmsz', 'Y-M-DTh:m:sz', 'Y-M-DTh:m:s.fz', 'YMDThmsfz']


def gen_fields(rng):
    y = rng.choice([1, 1970, 1999, 2000, 2015, 2016, 2020, 2024, 2038, 2100, 9998, rng.randrange(2, 9998)])
    mo = rng.randrange(1, 13)
    d = rng.choice([1, 28, days_in(y, mo), rng.randrange(1, days_in(y, mo) + 1)])
    h, m, s = rng.choice([0, 23, rng.randrange(24)]), rng.choice([0, 59, rng.randrange(60)]), rng.choice([0, 59, rng.randrange(60)])
    f = rng.choice([0, 1, 999999, 500000, rng.randrange(10 ** 6)])
    o = rng.choice([0, 60, -60, 330, -570, 845, -1439, 1439, rng.randrange(-1439, 1440)])
    return y, mo, d, h, m, s, f, o


def spell(fmt, fields):
    '''(text, microseconds since the epoch)'''
    y, mo, d, h, m, s, f, o = fields
    zero_offset_sign = '-' if o < 0 or (o == 0 and f % 2) else '+'
    parts = {'Y': f'{y:04d}', 'M': f'{mo:02d}', 'D': f'{d:02d}', 'T': 'T', 'h': f'{h:02d}', 'm': f'{m:02d}', 's': f'{s:02d}', 'f': f'{f:06d}',
             'z': zero_offset_sign + f'{abs(o) // 60:02d}{abs(o) % 60:02d}'}
    text = ''.join(parts.get(c, c) for c in fmt)
    if 'M' not in fmt:
        mo = 1
    if 'D' not in fmt:
        d = 1
    if 'h' not in fmt:
        h = m = s = o = 0
    if 'f' not in fmt:
        f = 0
    days = (datetime(y, mo, d) - datetime(1970, 1, 1)).days
    return text, (days * 86400 + h * 3600 + m * 60 + s - o * 60) * 1_000_000 + f


ABSOLUTE = [
    r'(?P<Y>\d{4})', r'(?P<Y>\d{4})-?(?P<M>\d\d)', r'(?P<Y>\d{4})(?P<M>\d\d)(?P<D>\d\d)', r'(?P<Y>\d{4})-(?P<M>\d\d)-(?P<D>\d\d)',
    r'(?P<Y>\d{4})(?P<M>\d\d)(?P<D>\d\d)T(?P<h>\d\d)(?P<m>\d\d)(?P<s>\d\d)(?P<f>\d{6})?[-+](?P<oh>\d\d)(?P<om>\d\d)',
    r'(?P<Y>\d{4})-(?P<M>\d\d)-(?P<D>\d\d)T(?P<h>\d\d):(?P<m>\d\d):(?P<s>\d\d)(\.(?P<f>\d{6}))?[-+](?P<oh>\d\d)(?P<om>\d\d)']


def acceptable(text):
    '''is it in one of the documented forms with possible values?'''
    for a in ABSOLUTE:
        m = re.fullmatch(a, text, re.ASCII)
        if m:
            g = {k: int(v) for k, v in m.groupdict().items() if v is not None}
            Y, M, D = g['Y'], g.get('M', 1), g.get('D', 1)
            if not (Y >= 1 and 1 <= M <= 12 and 1 <= D <= days_in(Y, M)):
                continue
            if g.get('h', 0) > 23 or g.get('m', 0) > 59 or g.get('s', 0) > 59 or g.get('oh', 0) * 60 + g.get('om', 0) > 1439:
                continue
            return True
    if re.fullmatch(r'([-+]?\d+[wdHMS])+', text, re.ASCII):
        amounts = re.findall(r'([-+]?)0*(\d+)([wdHMS])', text, re.ASCII)
        if any(len(n) > 15 for _, n, _ in amounts):
            return False
        total = sum(int(sign + n) * {'w': 604800, 'd': 86400, 'H': 3600, 'M': 60, 'S': 1}[u] for sign, n, u in amounts)
        # there are no times more than 10000 years away
        return abs(total) < 10000 * 366 * 86400
    return False


def in_range(us):
    return datetime(1, 1, 2) - datetime(1970, 1, 1) < timedelta(microseconds=us) < datetime(9999, 12, 30) - datetime(1970, 1, 1)


def micro(t):
    return (t - EPOCH) // timedelta(microseconds=1)


def mutate(rng, text):
    how = rng.choice(['drop', 'insert', 'replace', 'swap', 'prefix', 'suffix', 'field', 'cut'])
    i = rng.randrange(len(text))
    c = rng.choice('0123456789-+T:.zZ ywdHMSsmh/,ABe_')
    if how == 'drop':
        t = text[:i] + text[i + 1:]
    elif how == 'insert':
        t = text[:i] + c + text[i:]
    elif how == 'replace':
        t = text[:i] + c + text[i + 1:]
    elif how == 'swap':
        j = rng.randrange(len(text))
        x = list(text)
        x[i], x[j] = x[j], x[i]
        t = ''.join(x)
    elif how == 'prefix':
        t = rng.choice([' ', '-', '+', 'x', '0', 'T', '1']) + text
    elif how == 'suffix':
        t = text + rng.choice([' ', 'Z', 'x', '0', '-', '+', '+0100', 'T', 'd', '.', '1'])
    elif how == 'cut':
        t = text[:i]
    else:
        t = re.sub(r'\d\d', lambda m: rng.choice(['00', '13', '24', '31', '32', '60', '61', '99', m.group()]), text)
    return how, t


SILLY = ['now', 'today', 'yesterday', 'latest', '0', '1', '12', '123', '00000000', '0000', '2020-00', '2020-13', '20201301', '2020-02-30', '2021-02-29', '2020-1-1', '20-01-01', '2020/01/01', '01-01-2020',
         '2020-01-01T00:00:00', '2020-01-01T00:00:00Z', '2020-01-01 00:00:00+0000', '20200101T000000', '20200101T240000+0000', '20200101T006000+0000', '20200101T000060+0000', '20200101T000000+2400',
         '20200101T000000-2400', '20200101T000000+9999', '20200101T000000+00:00', '1y', '1m', '1h', '1s', '1W', '1D', '1', 'd', '-d', '1.5d', '1 d', '1d 2H', '--1d', '+-1d', '1d-', '1e3d', '0x1d', '٣', 'P1D',
         '99999999999999d', '9999999999d', '999999999d', '-999999999d', '-4000000d', '99999999w', '1d' * 5 + 'x', 'nan', 'inf', '9' * 400 + 'd', '9' * 5000 + 'S', '١d2']


def formats_case(case, w):
    rng = w.rng
    stamps = []
    for _ in range(case['n']):
        fmt = rng.choice(FORMATS)
        text, want = spell(fmt, gen_fields(rng))
        w.count('formats')
        try:
            got = micro(time_from_user(text))
        except Exception as e:
            got = repr(e)
        w.check(got == want, 'a documented time format is not read as the instant it denotes', text=text, format=fmt, got=got, want=want)
        w.seen('format', [fmt, len(text)])
        if fmt == 'YMDThmsfz':
            try:
                got = micro(time_from_timestamp(text))
            except Exception as e:
                got = repr(e)
            w.check(got == want, 'a time stamp is not read as the instant it denotes', text=text, got=got, want=want)
            stamps.append((text, want))
        else:
            try:
                r = time_from_timestamp(text)
            except ValueError:
                r = None
            w.check(r is None, 'something else is accepted as a time stamp', text=text)
        # ---- something near, but wrong
        base = text if rng.random() < .8 else gen_delta(rng)[0]
        how, bad = mutate(rng, base)
        if rng.random() < .1:
            how, bad = 'silly', rng.choice(SILLY[:-1])
        if bad and not acceptable(bad):
            w.count('refused')
            try:
                r = time_from_user(bad)
            except ValueError:
                r = None
            except Exception as e:
                r = repr(e)
            w.check(r is None, 'something that is not a time is not refused properly', text=bad[:100], got=repr(r), how=how)
            w.seen('format', ['bad', how, len(bad)])
        # ---- relative
        if rng.random() < .4:
            text, delta = gen_delta(rng)
            w.count('deltas')
            a = datetime.now(timezone.utc)
            got = time_from_user(text)
            b = datetime.now(timezone.utc)
            w.check(a <= got - timedelta(microseconds=delta) <= b, 'relative time is not that far from now', text=text, got=repr(got), now=repr(a))
    # ---- comparisons
    near = [spell('YMDThmsfz', (*(datetime(2020, 1, 1) + timedelta(microseconds=t + o * 60_000_000)).timetuple()[:6], (t % 10 ** 6), o))
            for t in [rng.randrange(5) + 10 ** 13 for _ in range(40)] for o in [rng.randrange(-1439, 1440)]]
    for x in (stamps, near):
        for _ in range(case['n'] if x else 0):
            (a, i), (b, j) = rng.choice(x), rng.choice(x)
            if not (in_range(i) and in_range(j)):
                continue
            p, q = time_from_timestamp(a), time_from_timestamp(b)
            w.count('compared')
            w.check((p < q, p == q, p > q, p <= q, p >= q) == (i < j, i == j, i > j, i <= j, i >= j), 'comparison of times does not follow the instants', a=a, b=b)


# ---- command line
def cli_case(case, w):
    rng = w.rng
    u = User(w)
    box = u.add_box('box')
    ws = u.path('ws')
    u.must('new', ws)
    moments = []
    y, mo, d, h, m, s, f, _ = gen_fields(rng)
    base = spell('YMDThmsfz', (rng.choice([1970, 1999, 2015, 2016, 2024, 2038, 2100]), mo, min(d, 28), h, m, s, f, 0))[1]
    beads = []
    for _ in range(10):
        t = base + rng.choice([0, 1, -1, 10 ** 6, -10 ** 6, 3600 * 10 ** 6, -3600 * 10 ** 6, rng.randrange(-10 ** 14, 10 ** 14)])
        # whole days, months are of interest, too
        t = rng.choice([t, t, t // (86400 * 10 ** 6) * 86400 * 10 ** 6, t // 10 ** 6 * 10 ** 6])
        if t in moments:
            continue
        moments.append(t)
        beads.append(put_bead(box, rng, 'b', instant=t, offset=rng.randrange(-1439, 1440)))
    now = max(moments) + 10 ** 12
    if rng.random() < .5:
        out = faults.command(u, ['box', 'index'], scope=u.path('nothing'), clock=now)
        w.check(out.ok, 'a valid command failed', outcome=repr(out))

    def expect(limit):
        ok = [b for b in beads if b.instant <= limit]
        return max(ok, key=lambda b: b.instant) if ok else None

    def go(spec, clock=None):
        argv = ['input', 'add', rng.choice(['--time=', '-t']) + spec, 'i', 'b']
        before = ws_inputs(ws)
        out = faults.command(u, argv, cwd=ws, scope=u.path('nothing'), clock=clock)
        r = out.result
        w.check(r is not None and r.crash is None, 'a command crashes', argv=argv, outcome=repr(out))
        got = ws_inputs(ws).get('i')
        return r, got, before.get('i')
    for _ in range(case['n']):
        kind = rng.choice(['absolute'] * 4 + ['delta', 'bad'])
        if kind == 'absolute':
            t = rng.choice(moments) + rng.choice([0, 0, 1, -1, 10 ** 6, -10 ** 6])
            o = rng.randrange(-1439, 1440)
            tm = datetime(1970, 1, 1) + timedelta(microseconds=t) + timedelta(minutes=o)
            fmt = rng.choice(FORMATS)
            spec, limit = spell(fmt, (*tm.timetuple()[:6], t % 10 ** 6, o))
            w.count('cli_time')
            # (beads from the future are damaged)
            r, got, _ = go(spec, clock=now)
        elif kind == 'delta':
            spec, delta = gen_delta(rng)
            if delta > 0:
                continue
            limit = rng.choice(moments) + rng.choice([0, 0, 1, -1])
            w.count('cli_delta')
            r, got, _ = go(spec, clock=limit - delta)
        else:
            spec = rng.choice(SILLY[:-1])
            w.count('cli_refused')
            r, got, before = go(spec)
            w.check(r.refused and got == before, 'something that is not a time is not refused', spec=spec, result=repr(r))
            continue
        b = expect(limit)
        if b is None:
            w.check(r.refused, 'a bead newer than the time limit is selected', spec=spec, limit=limit, result=repr(r), got=got)
        else:
            w.check(r.ok and got == (b.kind, b.content_id, b.freeze_time_str), 'time limit does not select the newest bead not after it', spec=spec, limit=limit,
                    got=got, want=b.freeze_time_str, result=repr(r))
        w.seen('format', ['cli', kind, b is not None])
    w.sample(dict(moments=len(moments), base=base))

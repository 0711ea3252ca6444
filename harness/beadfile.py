'''
Independent reader/writer of bead archives - shares no code with /repo.
'''
import hashlib
import json
import os
import re
import zipfile
from datetime import datetime, timedelta, timezone

META_VERSION = 'aaa947a6-1f7a-11e6-ba3a-0021cc73492e'
TS = re.compile(r'^(\d{4})(\d\d)(\d\d)T(\d\d)(\d\d)(\d\d)(\d{6})([-+])(\d\d)(\d\d)$')


def nshash(data: bytes) -> str:
    n = str(len(data)).encode()
    return hashlib.sha512(n + b':' + data + b';' + n).hexdigest()


def dumps(obj) -> bytes:
    return json.dumps(obj, indent=4, sort_keys=True, ensure_ascii=True).encode('ascii')


def instant(ts: str) -> int:
    '''microseconds since the epoch (exact integer arithmetic)'''
    m = TS.match(ts)
    if not m:
        raise ValueError(ts)
    y, mo, d, h, mi, s, us, sign, oh, om = m.groups()
    off = (int(oh) * 60 + int(om)) * (1 if sign == '+' else -1)
    t = datetime(int(y), int(mo), int(d), int(h), int(mi), int(s), tzinfo=timezone.utc)
    delta = t - datetime(1970, 1, 1, tzinfo=timezone.utc)
    return (delta.days * 86400 + delta.seconds - off * 60) * 1_000_000 + int(us)


def ts_from_instant(us: int, offset_minutes: int = 0) -> str:
    t = datetime(1970, 1, 1) + timedelta(microseconds=us) + timedelta(minutes=offset_minutes)
    sign = '+' if offset_minutes >= 0 else '-'
    o = abs(offset_minutes)
    return t.strftime('%Y').zfill(4) + t.strftime('%m%dT%H%M%S%f') + f'{sign}{o // 60:02d}{o % 60:02d}'


def name_from_file(path) -> str:
    base = os.path.basename(os.fspath(path))
    stem, _ext = os.path.splitext(base)
    return re.sub(r'_[0-9]{8}(?:[tT][-+0-9]*)?$', '', stem)


class BeadFile:
    '''what an archive file says, read independently'''

    def __init__(self, path):
        self.path = os.fspath(path)
        self.problems = []
        with zipfile.ZipFile(self.path) as z:
            self.comment = z.comment
            self.namelist = z.namelist()
            self.members = {}
            for n in self.namelist:
                if n in self.members:
                    self.problems.append(f'duplicate member {n!r}')
                self.members[n] = z.read(n)
            self.compress_types = {i.compress_type for i in z.infolist()}
        self.meta = json.loads(self.members['meta/bead'])
        self.manifest_bytes = self.members['meta/manifest']
        self.manifest = json.loads(self.manifest_bytes)
        self.content_id = nshash(self.manifest_bytes)
        self.name = name_from_file(self.path)
        self.kind = self.meta['kind']
        self.freeze_time_str = self.meta['freeze_time']
        self.inputs = self.meta['inputs']
        self.code = {n[5:]: b for n, b in self.members.items() if n.startswith('code/')}
        self.data = {n[5:]: b for n, b in self.members.items() if n.startswith('data/')}
        expected = {n for n in self.members if n != 'meta/manifest'}
        if set(self.manifest) != expected:
            self.problems.append(f'manifest names differ: {sorted(set(self.manifest) ^ expected)[:5]}')
        for n, h in self.manifest.items():
            if n in self.members and nshash(self.members[n]) != h:
                self.problems.append(f'hash mismatch: {n!r}')
        for n in self.members:
            if not (n.startswith(('code/', 'data/')) or n in ('meta/bead', 'meta/manifest')):
                self.problems.append(f'foreign member {n!r}')
        if self.meta.get('meta_version') != META_VERSION:
            self.problems.append('meta version')

    @property
    def instant(self):
        return instant(self.freeze_time_str)

    def record(self):
        return dict(
            name=self.name, content_id=self.content_id, kind=self.kind,
            freeze_time=self.freeze_time_str, inputs=normal_inputs(self.inputs))


def normal_inputs(inputs):
    '''{nick: (kind, content_id, freeze_time)}'''
    return {n: (i['kind'], i['content_id'], i['freeze_time']) for n, i in inputs.items()}


def spec_inputs(specs):
    '''same for the input records of the code under test'''
    r = {}
    for s in specs:
        assert str(s.name) not in r
        r[str(s.name)] = (s.kind, s.content_id, s.freeze_time_str)
    return r


def write_bead(path, kind, freeze_time, name=None, inputs=None, code=None, data=None,
               compression=zipfile.ZIP_DEFLATED, comment=b'', meta_override=None,
               manifest_override=None, extra=(), order=None, meta_raw=None, freeze_name=None):
    '''
    Write an archive the way the documented format says; returns its content id.

    extra: [(member name, bytes)] members not in manifest (for hostile archives)
    '''
    code, data = code or {}, data or {}
    name = name if name is not None else name_from_file(path)
    members = {}
    for n, b in data.items():
        members['data/' + n] = b
    for n, b in code.items():
        members['code/' + n] = b
    meta = dict(
        meta_version=META_VERSION, kind=kind, freeze_time=freeze_time, freeze_name=freeze_name or name,
        inputs={
            nick: dict(kind=k, content_id=c, freeze_time=t)
            for nick, (k, c, t) in (inputs or {}).items()})
    if meta_override:
        meta_override(meta)
    members['meta/bead'] = meta_raw if meta_raw is not None else dumps(meta)
    manifest = {n: nshash(b) for n, b in members.items()}
    if manifest_override:
        r = manifest_override(manifest)
        if r is not None:
            manifest = r
    manifest_bytes = manifest if isinstance(manifest, bytes) else dumps(manifest)
    names = list(members)
    if order:
        order(names)
    with zipfile.ZipFile(path, 'w', compression=compression) as z:
        z.comment = comment
        for n in names:
            z.writestr(raw_info(n, compression), members[n])
        for n, b in extra:
            z.writestr(raw_info(n, compression) if isinstance(n, str) else n, b)
        if manifest_override is None or manifest_bytes != b'<none>':
            z.writestr(raw_info('meta/manifest', compression), manifest_bytes)
    return nshash(manifest_bytes)


def raw_info(name, compression):
    info = zipfile.ZipInfo('x', (2020, 1, 1, 0, 0, 0))
    info.filename = name        # unnormalised, hostile names survive
    info.compress_type = compression
    info.external_attr = 0o644 << 16
    return info

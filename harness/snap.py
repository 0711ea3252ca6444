'''Tree snapshots and differences.'''
import hashlib
import os
import stat


def tree_files(root):
    '''{relative name: bytes} of regular files (links followed for files), independent of the code under test'''
    r = {}
    root = os.fspath(root)
    for d, dirs, files in os.walk(root, followlinks=True):
        for f in files:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                r[os.path.relpath(p, root)] = fh.read()
    return r


def snapshot(root, content=True, modes=True, mtimes=False, skip=()):
    '''{relative path: description}; does not follow links'''
    root = os.fspath(root)
    r = {}

    def add(path, rel):
        try:
            st = os.lstat(path)
        except FileNotFoundError:
            r[rel] = 'absent'
            return
        except PermissionError:
            r[rel] = 'unreachable'
            return
        m = stat.S_IMODE(st.st_mode) if modes else None
        t = st.st_mtime_ns if mtimes else None
        if stat.S_ISLNK(st.st_mode):
            r[rel] = ('link', os.readlink(path))
        elif stat.S_ISDIR(st.st_mode):
            r[rel] = ('dir', m)
            try:
                names = sorted(os.listdir(path))
            except PermissionError:
                r[rel] = ('dir', m, 'unreadable')
                return
            for n in names:
                if rel == '.' and n in skip:
                    continue
                add(os.path.join(path, n), n if rel == '.' else rel + '/' + n)
        elif stat.S_ISREG(st.st_mode):
            h = None
            if content:
                try:
                    with open(path, 'rb') as f:
                        h = hashlib.sha1(f.read()).hexdigest()
                except PermissionError:
                    h = 'unreadable'
            r[rel] = ('file', m, st.st_size, h, t)
        else:
            r[rel] = ('other', stat.S_IFMT(st.st_mode), m)
    add(root, '.')
    return r


def diff(a, b, limit=8):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append((k, a.get(k, '-'), b.get(k, '-')))
    return out[:limit]


def diff_files(expected, actual, limit=6):
    out = []
    for k in sorted(set(expected) | set(actual)):
        if k not in actual:
            out.append(('missing', k, len(expected[k])))
        elif k not in expected:
            out.append(('extra', k, len(actual[k])))
        elif expected[k] != actual[k]:
            e, a = expected[k], actual[k]
            at = next((i for i, (x, y) in enumerate(zip(e, a)) if x != y), min(len(e), len(a)))
            out.append(('differs', k, len(e), len(a), 'at', at))
    return out[:limit]

'''
Online monitor of file system modifications made by the process (interpreter audit events).

Everything that creates, changes or removes something is recorded with its real path; modifications
outside of the case's scratch directory are blocked and recorded.
'''
import os
import sys

_state = dict(on=False, log=None, fence=None, fault=None, ops=0)
WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
EVENTS = {
    'os.mkdir': (0, 2), 'os.rmdir': (0, 1), 'os.remove': (0, 1), 'os.chmod': (0, 2), 'os.chown': (0, 3), 'os.truncate': (0, None),
    'os.utime': (0, 3), 'os.symlink': (1, 2), 'os.setxattr': (0, None), 'os.removexattr': (0, None), 'os.mkfifo': (0, 2), 'os.mknod': (0, 3),
}
_installed = False


class Blocked(PermissionError):
    pass


def _real(path, dir_fd=None):
    if isinstance(path, int):
        return os.readlink(f'/proc/self/fd/{path}')
    path = os.fsdecode(path)
    if dir_fd is not None and dir_fd != -1 and not os.path.isabs(path):
        path = os.path.join(os.readlink(f'/proc/self/fd/{dir_fd}'), path)
    head, tail = os.path.split(os.path.abspath(path) if not path.startswith('/') else path)
    return os.path.normpath(os.path.join(os.path.realpath(head), tail))


def _note(event, *paths):
    for p in paths:
        _state['log'].append((event, p))
        fence = _state['fence']
        if fence and p != fence and not p.startswith(fence + '/') and not p.startswith('/dev/'):
            _state['log'].append(('BLOCKED', p))
            raise Blocked(f'{event} {p}')
    if event not in ('os.chmod', 'sqlite3.connect'):
        _state['ops'] += 1
        fault = _state['fault']
        if fault and _state['ops'] == fault[0]:
            _state['fault'] = None
            _state['log'].append(('FAULT', paths[-1]))
            raise fault[1]


def _hook(event, args):
    if not _state['on']:
        return
    try:
        _state['on'] = False
        if event == 'open':
            path, mode, flags = args
            if isinstance(path, int):
                return
            if isinstance(flags, int) and flags & WRITE_FLAGS:
                # opening for write modifies what a link points to
                _note('open', os.path.realpath(os.fsdecode(path)))
        elif event in EVENTS:
            i, d = EVENTS[event]
            _note(event, _real(args[i], args[d] if d is not None and len(args) > d else None))
        elif event == 'os.rename':
            src, dst, sfd, dfd = args
            _note(event, _real(src, sfd), _real(dst, dfd))
        elif event == 'os.link':
            src, dst, sfd, dfd = args
            _note(event, _real(dst, dfd))
        elif event == 'sqlite3.connect':
            p = os.fsdecode(args[0])
            if not p.startswith('file:') and p != ':memory:':
                _note(event, os.path.realpath(p))
    finally:
        _state['on'] = True


class watch:
    '''
    with watch(fence) as log: ...    log is a list of (event, real path)

    fault: (n, exception) - the nth modification fails with the exception
    '''

    def __init__(self, fence=None, fault=None):
        self.fence = os.path.realpath(fence) if fence else None
        self.fault = fault

    def __enter__(self):
        global _installed
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        _state.update(on=True, log=[], fence=self.fence, fault=self.fault, ops=0)
        return _state['log']

    def __exit__(self, *exc):
        _state['on'] = False
        return False


def outside(log, allowed):
    '''modifications that are not within the allowed places'''
    allowed = [os.path.realpath(a) for a in allowed]
    return [(e, p) for e, p in log if not any(p == a or p.startswith(a + '/') for a in allowed)]

"""
Keeps what the code under test deletes, renames or writes inside the scratch
folder: a call that would reach anything else raises instead.
"""
import os
import sys

ALLOWED = []
HERE = os.path.dirname(os.path.abspath(__file__))


def _real(path, dir_fd=-1):
    path = os.fsdecode(path)
    if isinstance(dir_fd, int) and dir_fd >= 0 and not os.path.isabs(path):
        path = os.path.join(os.readlink(f'/proc/self/fd/{dir_fd}'), path)
    path = os.path.abspath(path)
    return os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))


def _check(what, path, dir_fd=-1):
    if path is None or isinstance(path, int):
        return
    p = _real(path, dir_fd)
    if p.startswith('/dev/') or any(p == a or p.startswith(a + '/') for a in ALLOWED):
        return
    raise PermissionError(f'harness: {what} outside the scratch folder: {p}')


def hook(event, args):
    if event in ('os.remove', 'os.rmdir'):
        _check(event, args[0], args[1] if len(args) > 1 else -1)
    elif event == 'shutil.rmtree':
        _check(event, args[0], args[1] if len(args) > 1 and isinstance(args[1], int) else -1)
    elif event in ('os.rename', 'os.link', 'os.symlink'):
        _check(event, args[1], args[3] if len(args) > 3 else -1)
        if event == 'os.rename':
            _check(event, args[0], args[2] if len(args) > 2 else -1)
    elif event in ('os.truncate', 'os.chmod', 'os.chown'):
        _check(event, args[0])
    elif event == 'os.mkdir':
        _check(event, args[0], args[2] if len(args) > 2 else -1)
    elif event == 'open':
        mode, flags = args[1], args[2]
        if (isinstance(mode, str) and any(c in mode for c in 'wax+')) or \
                (mode is None and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
            _check(event, args[0])
    elif event == 'subprocess.Popen' and list(args[1])[:2] == [sys.executable, os.path.join(HERE, 'd_sessions.py')]:
        # another process of the harness, which has the same guard
        return
    elif event in ('os.system', 'os.exec', 'os.posix_spawn', 'os.spawn', 'subprocess.Popen'):
        raise PermissionError(f'harness: {event} {args[:1]}')


def install(*roots):
    ALLOWED[:] = [os.path.realpath(r) for r in roots]
    sys.addaudithook(hook)

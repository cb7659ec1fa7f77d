"""A monitor on the file-system calls of the code under test.

While a watch is active, every Python-level call that creates, changes, renames or removes something is recorded, and one
whose target lies outside the allowed directories is refused (so nothing outside the scratch directory can be hurt) and kept
for the verdict."""
import hashlib
import os
import sys
import threading

_WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
_EVENTS = {
    "os.remove": [0], "os.rmdir": [0], "os.rename": [0, 1], "os.mkdir": [0], "os.truncate": [0], "os.chmod": [0], "os.chown": [0],
    "os.link": [1], "os.symlink": [1], "shutil.rmtree": [0], "shutil.move": [0, 1], "shutil.copyfile": [1], "os.utime": [0],
}
_DIR_FD = {"os.remove": {0: 1}, "os.rmdir": {0: 1}, "os.mkdir": {0: 2}, "os.rename": {0: 2, 1: 3}, "shutil.rmtree": {0: 1}, "os.link": {1: 3}, "os.symlink": {1: 2}, "os.chmod": {0: 2}, "os.chown": {0: 3}, "os.utime": {0: 3}}
_active = None
_installed = False


class Escape(Exception):
    pass


class Watch:
    def __init__(self, allowed):
        self.allowed = [os.path.realpath(a) for a in allowed]
        self.calls = {}
        self.escapes = []
        self.thread = threading.get_ident()

    def __enter__(self):
        global _active, _installed
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        _active = self
        return self

    def __exit__(self, *a):
        global _active
        _active = None

    def total(self):
        return sum(self.calls.values())


def _hook(event, args):
    w = _active
    if w is None:
        return
    if event == "open":
        path, mode, flags = args[0], args[1], args[2]
        if isinstance(path, int) or path is None:
            return
        if not ((isinstance(flags, int) and flags & _WRITE) or (isinstance(mode, str) and any(c in mode for c in "wax+"))):
            return
        idx = [0]
    elif event in _EVENTS:
        idx = _EVENTS[event]
    else:
        return
    w.calls[event] = w.calls.get(event, 0) + 1
    for k in idx:
        p = args[k]
        if isinstance(p, int):
            continue
        p = os.fsdecode(p)
        fd = _DIR_FD.get(event, {}).get(k)
        if fd is not None and fd < len(args) and isinstance(args[fd], int) and args[fd] >= 0:
            p = os.path.join(os.readlink(f"/proc/self/fd/{args[fd]}"), p)
        # a call on a link is a call on the link itself: resolve only the directory
        full = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
        if full == "/dev/null":
            continue
        if not any(full == a or full.startswith(a + os.sep) for a in w.allowed):
            w.escapes.append((event, p))
            raise Escape(f"{event} on {p}, outside {w.allowed}")


def tree(root):
    """{relative path: kind or content hash}"""
    out = {}
    for d, ds, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        out[rel] = "dir"
        for f in fs:
            p = os.path.join(d, f)
            if os.path.islink(p):
                out[os.path.join(rel, f)] = "link:" + os.readlink(p)
            else:
                with open(p, "rb") as h:
                    out[os.path.join(rel, f)] = hashlib.sha1(h.read()).hexdigest()
    return out


def diff(a, b):
    return [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)][:6]

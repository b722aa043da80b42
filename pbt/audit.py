"""Watches what this process asks of the host, through CPython's audit events."""
from __future__ import annotations

import sys

_log = None
_installed = False
PROCESS = ("subprocess.Popen", "os.system", "os.posix_spawn", "os.spawn", "os.fork", "os.exec",
           "os.forkpty", "pty.spawn", "os.startfile")
NETWORK = ("socket.",)
FILES = ("open", "os.", "shutil.", "tempfile.", "pathlib.", "glob.", "ctypes.", "mmap.", "fcntl.",
         "sqlite3.", "ftplib.", "urllib.", "import")


def _hook(event, args):
    if _log is not None and not (event in IMPORTISH and importing()):
        _log.append((event, args))


IMPORTISH = ("open", "os.listdir", "os.scandir", "import", "marshal.loads", "exec", "compile",
             "os.mkdir", "os.rename", "os.replace", "os.remove", "stat")


def importing():
    """Is the interpreter loading a module, or source text for a message?"""
    f = sys._getframe(1)
    while f is not None:
        name = f.f_code.co_filename
        if "importlib" in name or name.endswith(("linecache.py", "warnings.py")):
            return True
        f = f.f_back
    return False


def install():
    global _installed
    if not _installed:
        sys.addaudithook(_hook)
        _installed = True


class Watch:
    """with Watch() as w: ...; w.events is the list of (event, args) raised inside."""

    def __init__(self):
        install()
        self.events = []

    def __enter__(self):
        global _log
        self.before = _log
        _log = self.events
        return self

    def __exit__(self, *exc):
        global _log
        _log = self.before
        return False

    def processes(self):
        return [(e, a) for e, a in self.events if e.startswith(PROCESS)]


class Stats:
    """Records stat-like calls, for which there is no audit event."""
    NAMES = ("stat", "lstat", "access", "readlink", "statvfs")

    def __init__(self, log):
        self.log = log

    def __enter__(self):
        import os
        self.kept = {n: getattr(os, n) for n in self.NAMES}
        for n, real in self.kept.items():
            setattr(os, n, self.wrap(n, real))
        return self

    def wrap(self, name, real):
        def call(*args, **kw):
            if not importing():
                self.log.append((f"os.{name}", args))
            return real(*args, **kw)
        return call

    def __exit__(self, *exc):
        import os
        for n, real in self.kept.items():
            setattr(os, n, real)
        return False

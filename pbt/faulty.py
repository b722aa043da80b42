"""Stores and providers with faults switched on and off by the harness."""
from __future__ import annotations

import sandfs.exceptions
from sandfs import MemoryStorageAdapter


class Injected(OSError):
    """An injected I/O failure (not an error of the sandbox itself)."""


class FaultyMemory(MemoryStorageAdapter):
    """Memory store that refuses the n-th write or the next delete while armed."""

    armed = None  # (mode, writes still let through)

    def write(self, path, content, *, version):
        if self.armed and self.armed[0] in ("conflict", "io"):
            mode, left = self.armed
            if left == 0:
                if mode == "conflict":
                    raise ValueError("injected conflict")
                raise Injected("injected write failure")
            self.armed = (mode, left - 1)
        return super().write(path, content, version=version)

    def delete(self, path):
        if self.armed and self.armed[0] == "delete":
            raise Injected("injected delete failure")
        if self.armed and self.armed[0] == "delete-once" and self.armed[1]:
            self.armed[1].clear()
            raise Injected("injected delete failure")
        super().delete(path)


class Switchable:
    """A content provider that fails while ``down`` is set."""

    def __init__(self, content):
        self.content, self.down, self.calls = content, False, 0

    def __call__(self, ctx):
        self.calls += 1
        if self.down:
            raise RuntimeError("injected provider failure")
        return self.content


def attempt_faulty(fn, *args, **kw):
    try:
        return True, fn(*args, **kw)
    except (sandfs.exceptions.SandboxError, Injected) as exc:
        return False, exc

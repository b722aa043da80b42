"""The code under test, as seen through its public surface."""
from __future__ import annotations

import re
import shlex

from pbt.core import Violation, require
from sandfs import NodePolicy, SandboxShell, VirtualFileSystem, VisibilityView
from sandfs.exceptions import SandboxError

__all__ = ["NodePolicy", "SandboxShell", "VirtualFileSystem", "VisibilityView", "SandboxError"]


def attempt(fn, *args, **kw):
    """-> (True, value) or (False, error); anything but the sandbox's own error is a violation."""
    try:
        return True, fn(*args, **kw)
    except SandboxError as exc:
        return False, exc


def pol(p):
    """model policy -> NodePolicy"""
    return NodePolicy(readable=p["r"], writable=p["w"], append_only=p["ao"],
                      classification=p["cls"], principals=set(p["pr"]))


def unpol(p):
    return {"r": p.readable, "w": p.writable, "ao": p.append_only,
            "cls": p.classification, "pr": sorted(p.principals)}


def content_of(vfs, node):
    try:
        return node.read(vfs)
    except SandboxError:
        return {"failing provider": True}


def capture(vfs, times=False):
    out = {}
    for path, node in vfs.walk("/"):
        path = str(path)
        is_dir = vfs.is_dir(path)
        rec = {"dir": is_dir, "content": None if is_dir else content_of(vfs, node),
               "version": node.version, "policy": unpol(node.policy), "meta": dict(node.metadata)}
        if times:
            rec["times"] = (node.created_at, node.modified_at)
        require(path not in out, f"{path} is enumerated twice")
        out[path] = rec
    return out


def compare(got, want, what, versions=True, ignore=()):
    """Both are captured states; versions of directories and None versions are not compared."""
    if set(got) != set(want):
        raise Violation(f"{what}: wrong set of paths\n    unexpected: "
                        f"{sorted(set(got) - set(want))[:8]}\n    missing: "
                        f"{sorted(set(want) - set(got))[:8]}")
    for path, g in got.items():
        w = want[path]
        for key in ("dir", "content", "version", "policy", "meta", "times"):
            if key in ignore or key not in w or key not in g:
                continue
            if key == "version" and (not versions or w["dir"] or w[key] is None):
                continue
            if g[key] != w[key]:
                raise Violation(f"{what}: {key} of {path!r} is {short(g[key])}, "
                                f"expected {short(w[key])}")


def adopt_versions(model, got):
    for n in model.root.walk():
        if n.version is None:
            n.version = got[n.path()]["version"]


def short(value):
    text = repr(value)
    return text if len(text) < 300 else text[:140] + "..." + text[-140:]


def q(text):
    return shlex.quote(text)


def qglob(pattern):
    """A shell word for a glob pattern: all but the glob characters quoted where needed."""
    return "".join(part if i % 2 else part and shlex.quote(part)
                   for i, part in enumerate(re.split(r"([*?\[\]!^-])", pattern)))


def sh(shell, line):
    """Run one command line; exec must not raise."""
    res = shell.exec(line)
    require(isinstance(res.stdout, str) and isinstance(res.stderr, str)
            and isinstance(res.exit_code, int), f"{line!r} gave a malformed result", repr(res))
    return res

"""Directories that are provided on first use, holding what a model tree already has there."""
from __future__ import annotations

from pbt import sut
from pbt.model import policy
from sandfs import ProvidedNode


def choose(b, percent=30):
    """Which directories are provided lazily, as a bit pattern (0: none)."""
    return b.u8() if b.chance(percent) else 0


def roots(m, bits):
    """Directories to provide, outermost only: at the top level or one below."""
    out, i = [], 0
    for top in m.root.kids.values():
        for node in [top] + list(top.kids.values() if top.is_dir else []):
            if node.is_dir and node.parent not in out:
                if bits >> (i % 8) & 1:
                    out.append(node)
                i += 1
    return out


def spec(node, bits=0):
    return {"dir": node.is_dir, "content": node.content, "policy": dict(node.policy), "meta": dict(node.meta),
            "kids": {k: spec(v, bits) for k, v in node.kids.items()} if node.is_dir else None,
            "how": bits}


def provided(s, depth=0):
    pol = sut.pol(s["policy"]) if s["policy"] != policy() else None
    if not s["dir"]:
        if s["how"] & 1:
            return ProvidedNode.file(content_provider=lambda ctx, t=s["content"]: t, metadata=s["meta"], policy=pol)
        return ProvidedNode.file(content=s["content"], metadata=s["meta"], policy=pol)
    if (s["how"] >> depth) & 2:
        return ProvidedNode.directory(directory_provider=provider(s, depth + 1), metadata=s["meta"], policy=pol)
    return ProvidedNode.directory(children=entries(s, depth + 1), metadata=s["meta"], policy=pol)


def entries(s, depth=0):
    return {name: provided(k, depth) for name, k in s["kids"].items()}


def provider(s, depth=0):
    return lambda ctx: entries(s, depth)


def mount(vfs, node, bits):
    """Provide the directory the model already has; its files count as never written."""
    s = spec(node, bits)
    vfs.mount_directory(node.path(), provider(s), metadata=dict(node.meta))
    if node.policy != policy():
        vfs.set_policy(node.path(), sut.pol(node.policy))
    for n in node.walk():
        n.version = 0

"""Decoders from drawn bytes to names, paths, contents, policies and operations."""
from __future__ import annotations

from pbt.model import policy

POOLS = {
    "tiny": ["a", "b", "c"],
    "plain": ["a", "b", "c", "d.txt", "e.md", "ab"],
    "prefixy": ["a", "aa", "a.", "a-b", "ab", "a_"],
    "odd": ["a b", "\u00fc", "x.txt", ".hid", "-r", "~", "#c", "\u65e5\u672c", "a'b", 'q"q', "a\\b",
            "a=b", "...", " a", "a ", "a:b", "%s", "a+b", "a%20b", "n" * 60],
    "casey": ["a", "A", "ab", "aB", "\u00e9", "e\u0301", "\u00c9", "a ", "a"],
    "wild": ["a*", "[z]", "?", "z", "a", "{b}", "$x"],
}
# Names a shell command line can carry once quoted (no expansion characters).
SHELL_POOLS = ["tiny", "plain", "prefixy", "odd", "casey"]


def names(b, pools=("tiny", "tiny", "plain", "prefixy", "odd", "wild", "casey")):
    return POOLS[b.pick(list(pools))]


def literal_path(b, pool, max_depth=4):
    depth = b.weighted([(12, 1), (24, 2), (18, 3), (6, 4), (6, 0), (1, 9)])
    depth = min(depth, max_depth) if depth != 9 else 9
    return "/" + "/".join(b.pick(pool) for _ in range(depth))


def path_ref(b, pool, max_depth=4):
    """A path argument: a literal, an existing node by index, or a name below one."""
    kind = b.weighted([(4, "lit"), (5, "node"), (4, "below"), (2, "file"), (1, "below2")])
    if kind == "lit":
        return literal_path(b, pool, max_depth)
    if kind == "node":
        return {"node": b.u8()}
    if kind == "file":
        return {"file": b.u8()}
    if kind == "below":
        return {"dir": b.u8(), "name": b.pick(pool)}
    return {"dir": b.u8(), "name": b.pick(pool) + "/" + b.pick(pool)}


def resolve(ref, model, max_depth=12):
    """Turn a path reference into a path, against the model's current tree."""
    if isinstance(ref, str):
        return ref
    if "node" in ref:
        pool = model.paths()
        return pool[ref["node"] % len(pool)]
    if "file" in ref:
        pool = sorted(model.files())
        return pool[ref["file"] % len(pool)] if pool else "/a"
    pool = [n.path() for n in model.root.walk() if n.is_dir]
    base = pool[ref["dir"] % len(pool)]
    if base.count("/") >= max_depth:
        base = "/"
    return (base if base != "/" else "") + "/" + ref["name"]


PIECES = ["x", "hello", "needle", "a b", "Needle", "\u00fcn\u00ef", "42", "tab\there", "foo:bar", "end."]


def text(b, newlines=True, crlf=True, big=True, pieces=PIECES):
    kind = b.weighted([(5, "word"), (5, "lines"), (2, "empty"), (1, "odd"), (1, "big"), (1, "rep")])
    if kind == "empty":
        return ""
    if kind == "word" or not newlines:
        return b.pick(pieces) + (str(b.u8()) if b.chance(50) else "")
    if kind == "lines":
        out = [b.pick(pieces) + (str(b.below(9)) if b.chance(30) else "")
               for _ in range(1 + b.below(5))]
        return "\n".join(out) + ("\n" if b.chance(60) else "")
    if kind == "odd":
        if not crlf:
            return b.pick(["\n", "\n\n\n", "a\n\nb\n", " lead\n trail \n", "\U0001f600\n"])
        return b.pick(["a\r\nb\r\n", "\r", "a\rb", "\n\n", "\ufeffbom\n", "\x0c\x1cform\n",
                       "\u2028sep\u2029", "\U0001f600\n", "nul\x00x", "e\u0301"])
    if kind == "rep":
        return b.pick(pieces) * (1 + b.below(40))
    if not big:
        return "B" * 50
    return (b.pick(pieces) + "\n") * (100 + b.below(1500))


def some_policy(b, dirs_append_only=True, labels=False):
    kind = b.weighted([(4, "ro"), (3, "ao"), (3, "noread"), (3, "open"), (1, "all")])
    p = {"ro": policy(w=False), "ao": policy(ao=True), "noread": policy(r=False),
         "open": policy(), "all": policy(r=False, w=False)}[kind]
    if labels:
        p["cls"] = b.pick(["public", "secret", "internal"])
        p["pr"] = sorted(set(b.pick([[], [], ["alice"], ["bob"], ["alice", "bob"]])))
    return p


def swarm(b, table):
    """Keep a random subset of weighted operation kinds (always at least the first)."""
    kept = [table[0]] + [t for t in table[1:] if b.u8() % 4 != 3]
    return kept


TREE_OPS = [(6, "write"), (4, "mkdir"), (4, "append"), (2, "touch"), (4, "rm"), (5, "mv"),
            (5, "cp"), (2, "cd")]


def tree_op(b, table, pool, newlines=True, shell=False, max_depth=4, spaces_ok=True):
    """One tree operation as JSON."""
    kind = b.weighted(table)
    via = "sh" if shell and b.chance(40) else "api"
    nl = newlines and via == "api"
    p = path_ref(b, pool, max_depth)
    if kind in ("write", "append"):
        return {"op": kind, "p": p, "data": text(b, newlines=nl), "via": via}
    if kind == "mkdir":
        return {"op": kind, "p": p, "parents": b.chance(60), "ok": b.chance(40), "via": via}
    if kind == "touch" or kind == "cd":
        return {"op": kind, "p": p, "via": via}
    if kind == "rm":
        return {"op": kind, "p": p, "rec": b.chance(60), "via": via}
    if kind in ("mv", "cp"):
        return {"op": kind, "p": p, "to": path_ref(b, pool, max_depth),
                "rec": b.chance(75), "via": via}
    if kind == "policy":
        return {"op": kind, "p": p, "policy": some_policy(b)}
    raise AssertionError(kind)


def setup_tree(b, pool, n=6, data=text, **kw):
    """A list of initial nodes (files get content); applied with ops.install."""
    out = []
    for _ in range(2 + b.below(n)):
        depth = b.weighted([(2, 1), (4, 2), (3, 3), (1, 5)])
        p = "/" + "/".join(b.pick(pool) for _ in range(depth))
        if b.chance(65):
            out.append({"p": p, "data": data(b, **kw)})
        else:
            out.append({"p": p})
    shape = b.weighted([(40, "usual"), (1, "deep"), (1, "wide")])
    if shape == "deep":  # a long way down, with something beside it on the way
        down = [b.pick(pool) for _ in range(6 + b.below(6))]
        out.append({"p": "/" + "/".join(down), "data": data(b, **kw)})
        out.append({"p": "/" + "/".join(down[:-2] + ["side"]), "data": data(b, **kw)})
    elif shape == "wide":  # many entries in one directory
        base = "/" + b.pick(pool)
        for i in range(10 + b.below(60)):
            out.append({"p": f"{base}/w{i:02d}", "data": f"{i} needle\n"} if i % 7
                       else {"p": f"{base}/w{i:02d}"})
    return out

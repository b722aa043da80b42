"""Labelled trees and visibility views, with an independent evaluation of what a view allows."""
from __future__ import annotations

from pbt import lazy, sut
from pbt.model import Model, policy

CLASSES = ["public", "internal", "secret"]
PRINCIPALS = ["alice", "bob", "carol"]


def decode_view(b, paths):
    """A view as JSON; ``paths``: candidate prefixes."""
    v = {"cls": None, "pr": None, "prefixes": None, "meta": None}
    kinds = b.weighted([(4, ["cls"]), (3, ["pr"]), (4, ["prefixes"]), (2, ["meta"]),
                        (3, ["cls", "pr"]), (2, ["cls", "prefixes"]), (1, ["meta", "prefixes"]),
                        (1, []), (1, ["cls", "pr", "prefixes"]), (1, ["cls", "pr", "prefixes", "meta"])])
    if "cls" in kinds:
        v["cls"] = sorted({b.pick(CLASSES) for _ in range(b.below(3))} | (
            {"public"} if b.chance(60) else set()))
    if "pr" in kinds:
        v["pr"] = sorted({b.pick(PRINCIPALS) for _ in range(b.below(3))})
    if "prefixes" in kinds:
        v["prefixes"] = [b.pick(paths) for _ in range(b.weighted([(6, 1), (3, 2), (1, 0)]))]
        if b.chance(10):
            v["prefixes"].append("/nowhere/else")
    if "meta" in kinds:
        v["meta"] = b.pick([{"k": "v"}, {"k": "v"}, {"k": "v", "t": 1}, {}, {"t": 1}, {"t": "1"}])
    return v


def make_view(v):
    return sut.VisibilityView(classifications=v["cls"], principals=v["pr"],
                              path_prefixes=v["prefixes"], metadata_filters=v["meta"])


def within(path, prefix):
    return prefix == "/" or path == prefix or path.startswith(prefix + "/")


def policy_ok(v, pol):
    if pol["pr"]:
        return v["pr"] is not None and bool(set(pol["pr"]) & set(v["pr"]))
    return v["cls"] is None or pol["cls"] in v["cls"]


def prefix_ok(v, path):
    return v["prefixes"] is None or any(within(path, p) or within(p, path) for p in v["prefixes"])


def meta_ok(v, meta):
    return all(k in meta and meta[k] == x for k, x in (v["meta"] or {}).items())


def allowed(v, node):
    return policy_ok(v, node.policy) and prefix_ok(v, node.path()) and meta_ok(v, node.meta)


def nameable(v, node):
    """Directories may be named (not listed) without matching the metadata filter."""
    if node.is_dir:
        return policy_ok(v, node.policy) and prefix_ok(v, node.path())
    return allowed(v, node)


def decode_tree(b, n, deep=True):
    """Nodes with unique names; each names its parent by index among the earlier directories."""
    nodes = []
    if b.chance(3):
        n += 10 + b.below(40)
    for i in range(n):
        nodes.append({"up": b.u8(), "dir": b.chance(45), "cls": b.weighted(
            [(5, "public"), (2, "internal"), (3, "secret")]),
            "pr": b.weighted([(8, []), (1, ["alice"]), (1, ["bob"]), (1, ["alice", "bob"])]),
            "meta": b.weighted([(4, {}), (3, {"k": "v"}), (1, {"k": "v", "t": 1}), (1, {"k": "w"}),
                                (1, {"k": "v", "t": "1"}), (1, {"t": None})]),
            "r": not b.chance(8), "odd": b.below(8)})
    return nodes


def node_paths(nodes):
    dirs, out = [""], []
    for i, n in enumerate(nodes):
        base = dirs[n["up"] % len(dirs)]
        if base.count("/") > 5:
            base = ""
        name = f"n{i:02d}" + ["", "", ".txt", "x", " y", "-z", "", ""][n["odd"]]
        if n["odd"] > 5:  # begin with the whole name of a sibling
            beside = [p.rpartition("/")[2] for p in out if p.rpartition("/")[0] == base]
            beside = [x for x in beside if x.isalnum() and len(x) < 12]
            name = (beside[n["up"] % len(beside)] if beside else "") + name
        path = base + "/" + name
        out.append(path)
        if n["dir"]:
            dirs.append(path)
    return out


def build(vfs, nodes, bits=0):
    """Create the labelled tree; -> model with the same labels.  ``bits``: directories provided lazily."""
    m = Model()
    paths = node_paths(nodes)
    for i, (n, path) in enumerate(zip(nodes, paths)):
        if n["dir"]:
            m.mkdir(path)
        else:
            m.write(path, f"head of it\nTOK{i:04d} body\nlast")
        node = m.find(path)
        node.meta = dict(n["meta"])
        node.policy = policy(r=n["r"], cls=n["cls"], pr=n["pr"])
    given = lazy.roots(m, bits) if bits else []
    tops = [n.path() for n in given]
    mine = [p for p in paths if not any(within(p, t) for t in tops)]
    for path in mine:
        node = m.find(path)
        if node.is_dir:
            vfs.mkdir(path)
        else:
            vfs.write_file(path, node.content)
    for path in mine:
        node = m.find(path)
        vfs.set_policy(path, sut.pol(node.policy))
        vfs.get_node(path).metadata.update(node.meta)
    for node in given:
        lazy.mount(vfs, node, bits)
    return m


def chain(v, node, start=True):
    """Nodes reachable from ``node`` through allowed nodes only."""
    out = []
    if start:
        if not allowed(v, node):
            return out
        out.append(node)
    for k in (node.kids or {}).values():
        out += chain(v, k)
    return out

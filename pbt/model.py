"""Reference filesystem, written from the property texts; shares nothing with the code.

Every operation either returns normally or raises Refused and changes nothing.
Versions of freshly copied or moved files that the properties leave open are None
until adopted from the observed tree.
"""
from __future__ import annotations


class Refused(Exception):
    pass


class Partial(Exception):
    """A recursive remove that must fail but may have removed unprotected parts."""


def policy(r=True, w=True, ao=False, cls="public", pr=()):
    return {"r": r, "w": w, "ao": ao, "cls": cls, "pr": sorted(pr)}


class Node:
    __slots__ = ("name", "parent", "kids", "content", "version", "policy", "meta")

    def __init__(self, name, parent, is_dir, content=""):
        self.name, self.parent = name, parent
        self.kids = {} if is_dir else None
        self.content = None if is_dir else content
        self.version = 0
        self.policy = policy()
        self.meta = {}

    @property
    def is_dir(self):
        return self.kids is not None

    def path(self):
        parts, n = [], self
        while n.parent is not None:
            parts.append(n.name)
            n = n.parent
        return "/" + "/".join(reversed(parts))

    def top(self):
        n = self
        while n.parent is not None:
            n = n.parent
        return n

    def walk(self):
        yield self
        if self.is_dir:
            for k in sorted(self.kids):
                yield from self.kids[k].walk()

    def clone(self, name, parent):
        c = Node(name, parent, self.is_dir, self.content)
        c.policy = dict(self.policy, pr=list(self.policy["pr"]))
        c.meta = dict(self.meta)
        c.version = self.version
        if self.is_dir:
            for k, v in self.kids.items():
                c.kids[k] = v.clone(k, c)
        return c


def plain(node):
    """May be changed, removed and renamed, and (a directory) gain and lose entries."""
    return node.policy["w"] and not node.policy["ao"]


def collapse(path, cwd="/"):
    parts = []
    text = path if path.startswith("/") else cwd + "/" + path
    for part in text.split("/"):
        if part in ("", "."):
            continue
        if part == "..":
            if parts:
                parts.pop()
        else:
            parts.append(part)
    return "/" + "/".join(parts)


def split(path):
    return [p for p in path.split("/") if p]


class Model:
    def __init__(self):
        self.root = Node("", None, True)
        self.cwd = self.root

    # -- lookup ---------------------------------------------------------
    def norm(self, path):
        return collapse(path, self.cwd.path())

    def pwd(self):
        return self.cwd.path()

    def find(self, path):
        node = self.root
        for part in split(self.norm(path)):
            if not node.is_dir or part not in node.kids:
                return None
            node = node.kids[part]
        return node

    def get(self, path):
        node = self.find(path)
        if node is None:
            raise Refused(f"missing {path}")
        return node

    def deepest(self, path):
        """-> (deepest existing node towards path, remaining parts)"""
        node, parts = self.root, split(self.norm(path))
        while parts and node.is_dir and parts[0] in node.kids:
            node = node.kids[parts[0]]
            parts = parts[1:]
        return node, parts

    def paths(self):
        return [n.path() for n in self.root.walk()]

    def files(self):
        return {n.path(): n for n in self.root.walk() if not n.is_dir}

    def cwd_lost(self):
        return self.cwd.top() is not self.root

    # -- operations -----------------------------------------------------
    def mkdir(self, path, parents=False, exist_ok=False):
        node, rest = self.deepest(path)
        if self.norm(path) == "/":
            return
        if not rest:
            if not node.is_dir or not exist_ok:
                raise Refused("exists")
            return
        if not node.is_dir or not plain(node) or (len(rest) > 1 and not parents):
            raise Refused("cannot create")
        for part in rest:
            new = Node(part, node, True)
            node.kids[part] = new
            node = new

    def write(self, path, data, append=False, expected=None):
        node, rest = self.deepest(path)
        if self.norm(path) == "/":
            raise Refused("root")
        if not rest:
            if node.is_dir:
                raise Refused("is a directory")
            if not node.policy["w"] or (node.policy["ao"] and not append):
                raise Refused("protected")
            if expected is not None and expected != node.version:
                raise Refused("stale")
            node.content = node.content + data if append else data
            node.version += 1
            return
        if not node.is_dir or not node.policy["w"]:
            raise Refused("cannot create")
        if expected is not None and expected != 0:
            raise Refused("stale")
        for part in rest[:-1]:
            new = Node(part, node, True)
            node.kids[part] = new
            node = new
        leaf = Node(rest[-1], node, False, data)
        leaf.version = 1
        node.kids[rest[-1]] = leaf

    def touch(self, path):
        node, rest = self.deepest(path)
        if rest:
            self.write(path, "")
            self.find(path).version = None  # left open
            return
        if node.is_dir:
            raise Refused("is a directory")
        if not node.policy["w"]:
            raise Refused("protected")

    def remove(self, path, recursive=False):
        node = self.get(path)
        if node is self.root:
            raise Refused("root")
        if not plain(node) or not plain(node.parent):
            raise Refused("protected")
        if node.is_dir and node.kids and not recursive:
            raise Refused("not empty")
        if node.is_dir and any(not plain(d) for d in node.walk()):
            raise Partial(node.path())
        del node.parent.kids[node.name]
        node.parent = None if node is self.root else Detached

    def _destination(self, node, target):
        """-> (parent directory, name, replaced file or None)"""
        dest = self.find(target)
        path = self.norm(target)
        if dest is None:
            head, _, name = path.rpartition("/")
            parent = self.get(head or "/")
            if not parent.is_dir or not plain(parent):
                raise Refused("cannot create")
            return parent, name, None
        if dest.is_dir:
            if not plain(dest):
                raise Refused("protected")
            return dest, node.name, None
        return dest.parent, dest.name, dest

    def move(self, source, target):
        node = self.get(source)
        if node is self.root:
            raise Refused("root")
        if not plain(node) or not plain(node.parent):
            raise Refused("protected")
        parent, name, replaced = self._destination(node, target)
        if replaced is not None:
            raise Refused("exists")
        up = parent
        while up is not None:
            if up is node:
                raise Refused("into itself")
            up = up.parent
        if parent is node.parent and name == node.name:
            return
        if name in parent.kids:
            raise Refused("exists")
        del node.parent.kids[node.name]
        node.parent, node.name = parent, name
        parent.kids[name] = node

    def copy(self, source, target, recursive=False):
        node = self.get(source)
        if node.is_dir and not recursive:
            raise Refused("directory")
        if not node.policy["r"]:
            raise Refused("unreadable")
        parent, name, replaced = self._destination(node, target)
        if replaced is not None:
            if node.is_dir or not plain(parent) or not plain(replaced):
                raise Refused("exists")
        elif name in parent.kids or name == "":
            raise Refused("exists")
        if node.is_dir:
            up = parent
            while up is not None:
                if up is node:
                    raise Refused("into itself")
                up = up.parent
        new = node.clone(name, parent)
        if replaced is not None:
            new.version = replaced.version + 1
        else:
            for n in new.walk():
                n.version = None
        parent.kids[name] = new

    def cd(self, path):
        node = self.get(path)
        if not node.is_dir or not node.policy["r"]:
            raise Refused("not enterable")
        self.cwd = node

    def read(self, path):
        node = self.get(path)
        if node.is_dir or not node.policy["r"]:
            raise Refused("not readable")
        return node.content

    def ls(self, path):
        node = self.get(path)
        if not node.is_dir or not node.policy["r"]:
            raise Refused("not listable")
        return {k: v.is_dir for k, v in node.kids.items()}

    def set_policy(self, path, pol):
        self.get(path).policy = dict(pol)

    # -- whole states ---------------------------------------------------
    def state(self):
        out = {}
        for n in self.root.walk():
            out[n.path()] = {"dir": n.is_dir, "content": n.content, "version": n.version,
                             "policy": n.policy, "meta": n.meta}
        return out

    def adopt(self, captured, cwd="/"):
        """Rebuild the model from an observed tree."""
        self.root = Node("", None, True)
        for path in sorted(captured, key=lambda p: (p.count("/") if p != "/" else 0, p)):
            rec = captured[path]
            if path == "/":
                node = self.root
            else:
                head, _, name = path.rpartition("/")
                parent = self.find(head or "/")
                node = Node(name, parent, rec["dir"], rec["content"])
                parent.kids[name] = node
            node.version = rec["version"]
            node.policy = dict(rec["policy"])
            node.meta = dict(rec["meta"])
        self.cwd = self.find(cwd) or self.root


Detached = Node("<removed>", None, True)

"""C21: provider-backed nodes are computed on demand and fail cleanly."""
from pbt import gen, ops, sut
from pbt.core import Check, Skip, require
from pbt.model import Model, Node, Partial, Refused, policy
from pbt.sut import attempt, q
from sandfs import ProvidedNode, exceptions

POOL = ["a", "b", "c", "d.txt"]
ERRORS = [RuntimeError("down"), KeyError("k"), OSError(5, "io"), ValueError("v"), StopIteration("s"),
          AssertionError("no"), sut.SandboxError("own"), TimeoutError("late"),
          exceptions.NodeNotFound("gone"), exceptions.InvalidOperation("not so"), exceptions.NodeExists("there"),
          exceptions.ProviderError("inner"), FileNotFoundError(2, "none"), LookupError("look"),
          UnicodeError("code"), NotImplementedError("later"), AttributeError("attr"), TypeError("type")]


def spec_of(b, depth=0):
    """name -> node, as JSON."""
    out = {}
    for _ in range(b.weighted([(3, 1), (3, 2), (3, 3), (2, 0)])):
        name = b.pick(POOL)
        kind = b.weighted([(4, "file"), (2, "prov"), (3, "dir") if depth < 2 else (0, "dir")])
        node = {"kind": kind, "meta": b.pick([{}, {}, {"k": 1}, {"k": "v", "z": [1]}]),
                "policy": b.pick([None, None, None, policy(w=False), policy(r=False), policy(ao=True),
                                  policy(cls="secret", pr=["al"]), policy()])}
        if kind == "file":
            node["content"] = b.pick(["", "text", "two\nlines\n", "\u00fc", None, "needle"])
        elif kind == "prov":
            node["prov"] = b.below(4)
        else:
            node["kids"] = spec_of(b, depth + 1) if b.chance(60) else None
            node["loader"] = 3 if b.chance(40) else None  # its entries hold no loaders
            if node["policy"] and node["policy"]["ao"]:
                node["policy"] = None
        out[name] = node
    return out


class C21(Check):
    id = "C21"
    rule = """histories of reads (API, cat, head, grep, wc, input redirection), listings, writes,
    appends, touches, copies, moves, removes and new mounts over content providers whose value
    changes and that go down and recover, and directory providers (nested, with static
    children, policies, metadata, changing or empty results, invalid names, failing) over a model that
    populates a directory exactly when and with what its provider answered; non-trivial: a
    directory was populated on demand, a provider changed or failed in between, and at least 5
    operations on provided nodes succeeded"""
    quick, thorough = 32000, 450000
    max_ops, op_bytes, cfg_bytes = 30, 16, 160
    assumptions = ["no index, hooks or storage mounts (they read contents of their own accord)",
                   "content providers return text and depend on nothing but their own state"]

    def decode(self, cfg, raw):
        mounts = []
        for i in range(1 + cfg.below(4)):
            mounts.append({"kind": cfg.pick(["file", "dir", "dir"]), "i": cfg.below(4),
                           "at": cfg.pick(["", "", "/s", "/s/t"]) + f"/m{i}",
                           "meta": cfg.pick([None, {"m": i}])})
        specs = [spec_of(cfg) for _ in range(3)] + [spec_of(cfg, 2) for _ in range(2)]
        table = gen.swarm(cfg, [(6, "read"), (5, "ls"), (3, "write"), (3, "append"), (3, "set"),
                                (3, "respec"), (4, "down"), (3, "cp"), (3, "mv"), (2, "rm"), (1, "touch"),
                                (1, "mkdir"), (1, "cd"), (1, "audit"), (1, "mount"), (1, "policy")])
        table.append((4, "up"))
        out = []
        for b in raw:
            kind = b.weighted(table)
            if kind in ("write", "append", "cp", "mv", "rm", "touch", "mkdir", "cd"):
                op = gen.tree_op(b, [(1, kind)], POOL, shell=True)
                if b.chance(40):
                    op["p"] = b.pick(mounts)["at"] + b.pick(["", "/a", "/b", "/c", "/a/b", "/c/d.txt"])
                if "to" in op and b.chance(35):
                    op["to"] = b.pick(mounts)["at"] + b.pick(["", "", "/a", "/c", "/new"])
            elif kind in ("read", "ls"):
                op = {"op": kind, "p": gen.path_ref(b, POOL), "how": b.below(6)}
                if b.chance(60):
                    op["p"] = b.pick(mounts)["at"] + b.pick(
                        ["", "", "/a", "/b", "/c", "/a/b", "/c/d.txt", "/b/c/a"])
            elif kind == "set":
                op = {"op": kind, "i": b.below(4), "text": gen.text(b, big=False)}
            elif kind == "respec":
                op = {"op": kind, "i": b.below(4), "spec": b.below(6)}
            elif kind in ("down", "up"):
                op = {"op": kind, "what": b.pick(["file", "dir"]), "i": b.below(4), "err": b.below(len(ERRORS)),
                      "bad": b.pick([None, None, "", "..", "x/y", "."])}
            elif kind == "mount":
                op = {"op": kind, "kind": b.pick(["file", "dir"]), "i": b.below(4),
                      "at": f"/late{b.u8()}", "meta": None}
            elif kind == "policy":
                op = {"op": kind, "p": {"file": b.u8()},
                      "policy": b.pick([policy(w=False), policy(r=False), policy(ao=True), policy()])}
            else:
                op = {"op": kind}
            out.append(op)
        return {"mounts": mounts, "specs": specs, "ops": out,
                "down": [cfg.chance(25) for _ in range(8)]}

    # -- the providers ------------------------------------------------------------------
    def build(self, spec):
        out = {}
        for name, n in spec.items():
            pol = sut.pol(n["policy"]) if n["policy"] else None
            if n["kind"] == "file":
                out[name] = ProvidedNode.file(content=n["content"], metadata=n["meta"], policy=pol)
            elif n["kind"] == "prov":
                out[name] = ProvidedNode.file(content_provider=self.provs[n["prov"]],
                                              metadata=n["meta"], policy=pol)
            else:
                out[name] = ProvidedNode.directory(
                    children=self.build(n["kids"]) if n["kids"] else None,
                    directory_provider=self.loaders[n["loader"]] if n["loader"] is not None else None,
                    metadata=n["meta"], policy=pol)
        return out

    def graft(self, parent, spec):
        for name, n in spec.items():
            if name in parent.kids:
                continue
            node = Node(name, parent, n["kind"] == "dir", n.get("content") or "")
            node.meta = dict(n["meta"])
            node.policy = dict(n["policy"]) if n["policy"] else policy()
            parent.kids[name] = node
            if n["kind"] == "prov":
                self.content_of[id(node)] = (node, self.provs[n["prov"]])
            elif n["kind"] == "dir":
                if n["kids"]:
                    self.graft(node, n["kids"])
                if n["loader"] is not None:
                    self.unloaded[id(node)] = (node, self.loaders[n["loader"]])

    def refresh(self):
        for node, prov in self.content_of.values():
            node.content = prov.value(node.path()) if not prov.down else None

    def settle(self, what):
        """Take over what directory providers have answered during an operation."""
        for loader, path, spec in self.loads:
            node = self.m.find(path)
            entry = self.unloaded.pop(id(node), None) if node is not None else None
            require(entry is not None and entry[1] is loader,
                    f"{what}: the provider of {path!r} was asked again or for another directory")
            self.graft(node, spec)
            self.populated += 1
        self.loads.clear()
        self.refresh()

    def run(self, case, env):
        self.m = m = Model()
        self.loads, self.fails, self.populated = [], [], 0
        self.content_of, self.unloaded = {}, {}
        self.provs = [Provider(self, i) for i in range(4)]
        self.loaders = [Loader(self, i, case["specs"][i]) for i in range(4)]
        vfs = sut.VirtualFileSystem()
        shell = sut.SandboxShell(vfs, view=sut.VisibilityView(principals={"al"}))
        vfs.mkdir("/s/t", parents=True)
        m.mkdir("/s/t", True)
        for d in case["mounts"]:
            self.mount(vfs, d)
        for x, down in zip(self.provs + self.loaders, case["down"]):
            x.down = down
        self.refresh()
        good = changed = 0
        for i, op in enumerate(case["ops"]):
            what = f"step {i} {op}"
            kind = op["op"]
            self.refresh()
            self.adopt(vfs)
            if kind == "set":
                self.provs[op["i"]].text = op["text"]
                changed += 1
            elif kind == "respec":
                self.loaders[op["i"]].spec = case["specs"][
                    op["spec"] % 3 if op["i"] < 3 else 3 + op["spec"] % 2]
                changed += 1
            elif kind in ("down", "up"):
                target = self.provs[op["i"]] if op["what"] == "file" else self.loaders[op["i"]]
                target.down, target.error = kind == "down", ERRORS[op["err"]]
                if op["what"] == "dir":
                    target.bad = op["bad"]
                changed += 1
            elif kind == "mount":
                if m.find(op["at"]) is None:
                    self.mount(vfs, op)
            elif kind == "policy":
                node = m.find(gen.resolve(op["p"], m))
                if node is not None and not node.is_dir:
                    if attempt(vfs.set_policy, node.path(), sut.pol(op["policy"]))[0]:
                        node.policy = dict(op["policy"])
                self.settle(what)
            elif kind == "audit":
                self.audit(vfs, what)
            else:
                good += self.step(vfs, shell, op, what, env)
        for x in self.provs + self.loaders:
            x.down = False
        self.audit(vfs, "at the end")
        env.label(*(["populated"] if self.populated else []), *(["changed"] if changed else []))
        return self.populated >= 1 and changed >= 1 and good >= 5

    def mount(self, vfs, d):
        calls = sum(x.calls for x in self.provs + self.loaders)
        extra = {"metadata": dict(d["meta"])} if d["meta"] else {}
        if d["kind"] == "file":
            prov = self.provs[d["i"]]
            vfs.mount_file(d["at"], prov, **extra)
            self.m.write(d["at"], "")
            node = self.m.find(d["at"])
            self.content_of[id(node)] = (node, prov)
        else:
            loader = self.loaders[d["i"] % 3]
            vfs.mount_directory(d["at"], loader, **extra)
            self.m.mkdir(d["at"], True)
            node = self.m.find(d["at"])
            self.unloaded[id(node)] = (node, loader)
        node.version = 0
        node.meta = dict(d["meta"] or {})
        require(sum(x.calls for x in self.provs + self.loaders) == calls,
                f"mounting at {d['at']} called a provider")
        self.refresh()

    def on_the_way(self, path, itself):
        """Unpopulated directories an operation on ``path`` has to look into."""
        node, found = self.m.root, []
        parts = [x for x in path.split("/") if x]
        for i, part in enumerate(parts + [None]):
            if part is None and not (itself and node.is_dir and node.policy["r"]):
                break
            if id(node) in self.unloaded and node.is_dir:
                found.append(node.path())
            if part is None or not node.is_dir or part not in node.kids:
                break
            node = node.kids[part]
        return found

    def step(self, vfs, shell, op, what, env):
        m, kind = self.m, op["op"]
        p = m.norm(gen.resolve(op["p"], m))
        to = m.norm(gen.resolve(op["to"], m)) if "to" in op else None
        via_shell = op.get("via") == "sh" and ops.shell_safe(p, to, op.get("data"))
        if kind == "rm" and any(x.down for x in self.loaders):
            return 0  # a recursive remove may stop half-way
        self.fails.clear()
        reading = kind in ("read", "append", "cp")
        if kind in ("read", "ls"):
            done, got = self.look(vfs, shell, op, p)
        elif via_shell:
            res = sut.sh(shell, ops.shell_line(op, p, to))
            done, got = res.exit_code == 0, res
        else:
            done, got = ops.api_call(vfs, op, p, to)
        self.settle(what)
        justified = [f for f in self.fails if reading or isinstance(f, Loader)]
        if justified:
            require(not done, f"{what}: {p!r} succeeded although a provider failed", repr(got))
            env.label("failed")
            return 0
        if not (done is False and self.fails):
            missed = [x for x in self.on_the_way(p, kind == "ls")
                      if not self.unloaded[id(m.find(x))][1].down]
            require(not missed, f"{what}: {p!r} was used without populating {missed}", repr(got))
            if kind in ("mv", "cp") and done:
                missed = self.on_the_way(to, True)
                require(not missed or kind == "mv" and m.find(p) is m.find(to),
                        f"{what}: {to!r} was added to without populating {missed}", repr(got))
            if kind == "rm" and not op["rec"] and done:
                node = m.find(p)
                require(node is None or id(node) not in self.unloaded,
                        f"{what}: {p!r} was taken for empty without asking its provider")
        before = m.find(p)
        try:
            if kind == "read":
                want = m.read(p)
            elif kind == "ls":
                want = m.ls(p)
            else:
                if kind == "append" and before is not None and before.content is None \
                        and not before.is_dir:
                    require(not done, f"{what}: appended without the provider's content")
                    before.content = ""
                ops.model_call(m, op if via_shell else dict(op, via="api"), p, to)
                want = None
            verdict = True
        except Refused as exc:
            verdict, want = False, exc
        except Partial:
            return self.resync(vfs, what)
        require(done == verdict, f"{what}: {p!r} {'accepted' if done else 'refused'}", repr(got),
                f"expected {'success' if verdict else f'a refusal ({want})'}")
        if not verdict:
            env.label("refused")
            return 0
        if kind == "read":
            require(got == want, f"{what}: {p!r} reads as", repr(got), repr(want))
        elif kind == "ls":
            require(got == want, f"{what}: {p!r} lists", repr(got), repr(want))
        elif kind in ("write", "append"):
            self.content_of.pop(id(m.find(p)), None)
        self.adopt(vfs)
        if m.cwd_lost():
            ops.home(vfs, m)
        return 1

    def adopt(self, vfs):
        for n in list(self.m.root.walk()):
            if n.version is None and not n.is_dir:
                ok, got = attempt(vfs.get_version, n.path())
                self.settle("version")
                n.version = got if ok else None

    def look(self, vfs, shell, op, p):
        how = op["how"]
        safe = ops.shell_safe(p)
        if op["op"] == "ls":
            if how < 3 or not safe:
                ok, got = attempt(vfs.ls, p)
                return ok, {e.name: e.is_dir for e in got} if ok else got
            if how < 5:
                res = sut.sh(shell, "ls -l " + q(p))
                if res.stdout == "- " + p:
                    return False, "the file itself"
                names = {}
                for line in res.stdout.split("\n") if res.stdout else []:
                    names[line[2:].rsplit("/", 1)[1]] = line[0] == "d"
                return res.exit_code == 0, names if res.exit_code == 0 else res
            ok, got = attempt(lambda: list(vfs.ls(p)))
            return ok, {e.name: e.is_dir for e in got} if ok else got
        if how < 2 or not safe:
            return attempt(vfs.read_file, p)
        line = {2: "cat ", 3: "cat < ", 4: "head -n 99999 ", 5: "tail -n 99999 "}[how] + q(p)
        res = sut.sh(shell, line)
        return res.exit_code == 0, res.stdout if res.exit_code == 0 else res

    def resync(self, vfs, what):
        """After a recursive remove that had to stop half-way: take the tree as it is."""
        raise Skip("recursive remove over protected nodes")

    def audit(self, vfs, what):
        if any(x.down for x in self.provs + self.loaders):
            return
        got = sut.capture(vfs)
        self.settle(what)
        require(not self.unloaded or not [n for n, _ in self.unloaded.values()
                                          if n.top() is self.m.root],
                f"{what}: walking the tree left directories unpopulated")
        want = self.m.state()
        sut.compare(got, want, what)
        for n in self.m.root.walk():
            if n.version is None:
                n.version = got[n.path()]["version"]


class Provider:
    def __init__(self, check, i):
        self.check, self.text, self.down, self.calls = check, f"text {i}\n", False, 0
        self.error = ERRORS[0]

    def value(self, path):
        return f"{self.text}@{path}\nneedle\n"

    def __call__(self, ctx):
        self.calls += 1
        if self.down:
            self.check.fails.append(self)
            raise self.error
        return self.value(str(ctx.path))


class Loader:
    def __init__(self, check, i, spec):
        self.check, self.spec, self.down, self.calls, self.bad = check, spec, False, 0, None
        self.error = ERRORS[0]

    def __call__(self, ctx):
        self.calls += 1
        if self.down:
            self.check.fails.append(self)
            if self.bad is not None:
                out = self.check.build(self.spec)
                out[self.bad] = ProvidedNode.file(content="bad name")
                return out
            raise self.error
        self.check.loads.append((self, str(ctx.path), self.spec))
        return self.check.build(self.spec)


CHECK = C21()

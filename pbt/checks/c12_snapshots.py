"""C12: restoring a snapshot reproduces the captured state exactly (any order, repeatedly)."""
from pbt import gen, lazy, ops, searching, sut
from pbt.core import Check, require
from pbt.model import Model
from sandfs import MemoryStorageAdapter, ProvidedNode, SearchQuery

TABLE = gen.TREE_OPS + [(4, "snap"), (5, "restore"), (2, "policy"), (2, "meta"), (1, "inplace"),
                        (1, "provider"), (1, "mount"), (1, "sync"), (1, "lookup"), (1, "losecwd"),
                        (1, "outside"), (1, "stamp")]
STAMPS = [0.0, 1.0, 1.5, -3.0, 2e9, 1e12, 1234567890.25]


class C12(Check):
    id = "C12"
    rule = """histories of tree operations, policy, metadata and timestamp changes (also in place),
    providers, storage mounts and searches with snapshots taken and restored at arbitrary
    points, repeatedly and in any order, index and search view on or off; each restore is
    compared with the harness's own capture (paths, kinds, contents, versions, policies,
    metadata, timestamps, current directory), then with a freshly built twin, and the
    history goes on against the model; non-trivial: at least 2 restores, one of a snapshot
    with changes made after it"""
    quick, thorough = 10400, 150000
    max_ops, op_bytes, cfg_bytes = 32, 18, 90
    assumptions = ["contents of the search view directory are not part of the captured state"]

    def decode(self, cfg, raw):
        pool = gen.names(cfg, ("tiny", "plain", "prefixy", "odd", "casey"))
        table = [t for t in TABLE if t[1] in ("snap", "restore")] + gen.swarm(cfg, [
            t for t in TABLE if t[1] not in ("snap", "restore")])
        setup = gen.setup_tree(cfg, pool, big=False)
        bits = lazy.choose(cfg)
        out = []
        for b in raw:
            kind = b.weighted(table)
            if kind in ("snap", "restore", "sync", "lookup", "losecwd", "outside"):
                op = {"op": kind, "k": b.u8()}
            elif kind in ("meta", "inplace", "stamp"):
                op = {"op": kind, "p": {"node": b.u8()}, "k": b.u8()}
            elif kind == "policy":
                op = {"op": kind, "p": {"node": b.u8()}, "policy": gen.some_policy(b, labels=True)}
                op["policy"]["ao"] = False
            elif kind == "provider":
                op = {"op": kind, "p": gen.path_ref(b, pool), "data": gen.text(b, big=False),
                      "k": b.u8()}
            elif kind == "mount":
                op = {"op": kind, "k": b.u8()}
            else:
                op = gen.tree_op(b, [(1, kind)], pool, shell=True)
                if b.chance(15):
                    op["p"] = b.pick(["/m1/a", "/m2/a", "/m1/" + b.pick(pool)])
            out.append(op)
        return {"setup": setup, "lazy": bits, "index": cfg.chance(40), "view": cfg.chance(40), "ops": out}

    def snapstate(self, vfs):
        state = sut.capture(vfs, times=True)
        return {p: r for p, r in state.items() if not p.startswith("/@search/")}

    def run(self, case, env):
        vfs = sut.VirtualFileSystem()
        shell = sut.SandboxShell(vfs, view=sut.VisibilityView(principals=["alice", "bob", "zoe"]))
        m = Model()
        ops.install(vfs, m, case["setup"], case["lazy"])
        if case["index"]:
            vfs.enable_full_text_index()
        if case["view"]:
            vfs.enable_search_view()
        if not case["lazy"]:
            m.adopt(self.snapstate(vfs))
        elif case["view"]:
            m.mkdir("/@search")
        snaps, mounted, stores = [], [], {}
        restored = useful = since = 0
        for i, op in enumerate(case["ops"]):
            what = f"step {i} {op}"
            kind = op["op"]
            if kind == "snap":
                lost = not vfs.is_dir(vfs.pwd()) or vfs.get_node(vfs.pwd()) is not vfs.cwd
                snaps.append((vfs.snapshot(), self.snapstate(vfs), None if lost else vfs.pwd(),
                              list(mounted)))
                env.label("snap-lost-cwd" if lost else "snap")
                continue
            if kind == "restore":
                if not snaps:
                    continue
                snap, want, cwd, mounted = snaps[op["k"] % len(snaps)]
                mounted = list(mounted)
                changed = self.snapstate(vfs) != want
                vfs.restore(snap)
                self.verify(vfs, want, cwd, case, what, op["k"])
                self.mounts(vfs, mounted, stores, what)
                restored += 1
                useful += changed
                m.adopt(want, vfs.pwd())
                env.label("restore")
                continue
            since += 1
            if any(gen.resolve(op[k], m).startswith("/@search") for k in ("p", "to") if k in op):
                continue
            if kind == "mount":
                at = ["/m1", "/m2"][op["k"] % 2]
                if m.find(at) is None and m.root.policy["w"]:
                    stores.setdefault(at, MemoryStorageAdapter({"a": "stored\n", "d/b": "deep\n"}))
                    vfs.mount_storage(at, stores[at])
                    if at not in mounted:
                        mounted.append(at)
                    m.adopt(self.snapstate(vfs), vfs.pwd())
            elif kind == "sync":
                if mounted:
                    at = mounted[op["k"] % len(mounted)]
                    if m.find(at) is not None and m.find(at).is_dir:
                        vfs.sync_storage(at)
                        m.adopt(self.snapstate(vfs), self.here(vfs))
            elif kind == "provider":
                self.provider(vfs, m, op)
                m.adopt(self.snapstate(vfs), self.here(vfs))
            elif kind == "meta":
                node = m.find(gen.resolve(op["p"], m))
                value = [op["k"], None, "", 0, False, ["x", {"y": None}], {"z": []}][op["k"] % 7]
                node.meta[f"k{op['k'] % 3}"] = value
                vfs.get_node(node.path()).metadata[f"k{op['k'] % 3}"] = value
            elif kind == "inplace":
                node = m.find(gen.resolve(op["p"], m))
                pol = vfs.get_node(node.path()).policy
                pol.principals.add("zoe")
                pol.classification = "moved"
                node.policy = sut.unpol(pol)
            elif kind == "stamp":
                # times carried over from elsewhere, in any order
                live = vfs.get_node(m.find(gen.resolve(op["p"], m)).path())
                live.modified_at = STAMPS[op["k"] % len(STAMPS)]
                if op["k"] % 3:
                    live.created_at = STAMPS[op["k"] // 16 % len(STAMPS)]
            elif kind == "lookup":
                if case["view"]:
                    sut.sh(shell, "ls '/@search?q=e'")
                vfs.search(SearchQuery("e"))
            elif kind == "losecwd":
                if m.cwd is not m.root and len(m.pwd()) > 1:
                    ok, _ = sut.attempt(vfs.remove, m.pwd(), recursive=True)
                    state = self.snapstate(vfs)
                    if ok:
                        lost = vfs.snapshot()
                        vfs.restore(lost)
                        self.verify(vfs, state, None, case, what + " restored at once", 0)
                        env.label("lost-cwd")
                    m.adopt(state, self.here(vfs))
                    if self.here(vfs) != vfs.pwd():
                        ops.home(vfs, m)
            elif kind == "outside":
                # a second sandbox restored from the same snapshot stays apart
                if snaps:
                    snap, want, cwd, at = snaps[op["k"] % len(snaps)]
                    if at:
                        continue
                    other = sut.VirtualFileSystem()
                    other.write_file("/junk", "x")
                    other.restore(snap)
                    got = {p: r for p, r in sut.capture(other, times=True).items()
                           if not p.startswith("/@search/")}
                    sut.compare(got, want, f"{what}: restored into another sandbox")
                    for p, r in want.items():
                        if not r["dir"]:
                            sut.attempt(other.write_file, p, "spoiled")
                            other.get_node(p).metadata["spoiled"] = 1
                            other.get_node(p).policy.principals.add("spoiled")
            else:
                got = ops.play_both(vfs, shell, m, op) if not mounted else self.unjudged(
                    vfs, shell, m, op)
                state = self.snapstate(vfs)
                if got in ("partial", "adopt"):
                    m.adopt(state, self.here(vfs))
                    if self.here(vfs) != vfs.pwd():
                        ops.home(vfs, m)
                else:
                    sut.compare(state, m.state(), what)
                    sut.adopt_versions(m, state)
                    ops.settle(vfs, m)
        for k, (snap, want, cwd, at) in enumerate(snaps):
            vfs.restore(snap)
            self.verify(vfs, want, cwd, case, f"finally restoring snapshot {k}", k)
        return restored >= 2 and useful >= 1

    def here(self, vfs):
        return vfs.pwd() if vfs.is_dir(vfs.pwd()) else "/"

    def unjudged(self, vfs, shell, m, op):
        """With mounts a restored tree may rightly conflict with its store."""
        p = gen.resolve(op["p"], m)
        to = gen.resolve(op["to"], m) if "to" in op else None
        ops.api_call(vfs, op, p, to)
        if not vfs.is_dir(vfs.pwd()):
            ops.home(vfs, m)
        return "adopt"

    def provider(self, vfs, m, op):
        p = gen.resolve(op["p"], m)
        top, rest = m.deepest(p)
        if not rest or not top.is_dir or not top.policy["w"]:
            return
        data = op["data"]
        if op["k"] % 2:
            vfs.mount_file(p, lambda ctx: data)
        else:
            vfs.mount_directory(p, lambda ctx: {"pf": ProvidedNode.file(content=data),
                                                "pg": ProvidedNode.file(
                                                    content_provider=lambda ctx: data + "!")})

    def verify(self, vfs, want, cwd, case, what, k):
        got = self.snapstate(vfs)
        sut.compare(got, want, f"{what}: restored state")
        for p, r in want.items():
            require(got[p]["version"] == r["version"], f"{what}: version of {p!r} is "
                    f"{got[p]['version']}, was {r['version']}")
        if cwd is not None:
            require(vfs.pwd() == cwd, f"{what}: current directory is {vfs.pwd()}, was {cwd}")
        require(vfs.is_dir(vfs.pwd()) and vfs.get_node(vfs.pwd()) is vfs.cwd,
                f"{what}: the current directory {vfs.pwd()} is not part of the restored tree")
        for q_ in ("e", "needle"):
            require(searching.found(vfs.search(SearchQuery(q_)))
                    == searching.expect(got, q_, skip="/@search"), f"{what}: search for {q_!r} "
                    "after the restore", sut.short(searching.found(vfs.search(SearchQuery(q_)))),
                    sut.short(searching.expect(got, q_, skip="/@search")))
        if case["view"] and vfs.get_policy("/@search").readable and vfs.get_policy("/").readable:
            top = vfs.get_policy("/@search")
            if not top.principals:
                res = sut.sh(sut.SandboxShell(vfs), "rg e '/@search?q=e'")
                n = len(searching.expect(got, "e", skip="/@search", allows=lambda p, r:
                                         not r["policy"]["pr"]))
                require(res.exit_code == 0 and len(res.stdout.splitlines()) == n,
                        f"{what}: the search view lists {len(res.stdout.splitlines())} lines, {n} "
                        "match", repr(res))
        if k % 3 == 0:
            self.twin(vfs, got, what)

    def twin(self, vfs, state, what):
        other = sut.VirtualFileSystem()
        for p, r in sorted(state.items(), key=lambda kv: len(kv[0].split("/"))):
            if p == "/":
                continue
            if r["dir"]:
                other.mkdir(p)
            else:
                other.write_file(p, r["content"])
        for p, r in state.items():
            other.set_policy(p, sut.pol(r["policy"]))
        a, b = sut.SandboxShell(vfs), sut.SandboxShell(other)
        for line in ("tree /", "find /", "rg e /", "find / -type d", "ls /"):
            x, y = sut.sh(a, line), sut.sh(b, line)
            for res in (x, y):
                res.stdout = "\n".join(t for t in sorted(res.stdout.split("\n"))
                                       if "/@search/" not in t)
            if "@search" in x.stdout and line == "tree /":
                continue
            require((x.exit_code, x.stdout) == (y.exit_code, y.stdout),
                    f"{what}: {line!r} differs from a freshly built tree", sut.short(x.stdout),
                    sut.short(y.stdout))

    def mounts(self, vfs, mounted, stores, what):
        for at, store in stores.items():
            if at in mounted:
                continue
            ok, _ = sut.attempt(vfs.sync_storage, at)
            require(not ok, f"{what}: {at} is still a mount although it was not when captured")
        for at in mounted:
            if vfs.is_dir(at):
                snap = vfs.snapshot()
                vfs.sync_storage(at)
                got = {p: r["content"] for p, r in sut.capture(vfs).items()
                       if not r["dir"] and p.startswith(at + "/")}
                want = {at + "/" + k: e.content for k, e in stores[at].list().items()}
                require(got == want, f"{what}: after a sync {at} differs from its store")
                vfs.restore(snap)


CHECK = C12()

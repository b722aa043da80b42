"""C03: a refused operation leaves no trace (histories with policies, stale versions, faults)."""
from pbt import gen, ops, sut
from pbt.core import Check, require
from pbt.faulty import FaultyMemory, Injected, Switchable
from pbt.model import Model, plain, policy
from pbt.sut import q
from sandfs import SearchQuery

TABLE = gen.TREE_OPS[:-1] + [(2, "cd"), (3, "policy"), (3, "expect"), (3, "redirect"), (2, "read"),
                             (2, "mountfile"), (1, "extern")]


class C03(Check):
    id = "C03"
    rule = """histories of operations through API and shell on trees with write/append/read
    policies, stale expected versions, storage mounts whose writes or deletes fail on
    demand (conflict or I/O error, on the n-th file of a multi-file operation) and content
    providers that fail on demand; whenever an operation is refused the whole observable
    state (nodes, contents, versions, policies, metadata, timestamps, cwd, store, search
    results, delivered events) must equal the state before it; non-trivial: at least 3
    refused operations of at least 2 kinds on a tree of 4 or more nodes"""
    quick, thorough = 11200, 160000
    max_ops, op_bytes, cfg_bytes = 30, 28, 96
    assumptions = ["a store that fails while the old copies of a move are deleted fails at the "
                   "first of them, and lets the new copies be taken back"]

    def decode(self, cfg, raw):
        pool = gen.names(cfg, ("tiny", "tiny", "plain", "prefixy", "casey"))
        table = gen.swarm(cfg, TABLE)
        setup = gen.setup_tree(cfg, pool)
        mounts = ["/m", "/a/m"][:cfg.below(3)]
        index = cfg.chance(60)
        fault_rate = cfg.pick([0, 20, 50])
        out = []
        for b in raw:
            kind = b.weighted(table)
            if kind == "expect":
                op = gen.tree_op(b, [(1, b.pick(["write", "append"]))], pool)
                op["expect"] = b.weighted([(3, 0), (2, 1), (2, 2), (1, 3), (1, -1)])
            elif kind in ("redirect", "read", "mountfile", "extern"):
                op = {"op": kind, "p": gen.path_ref(b, pool), "data": gen.text(b, big=False)}
                if kind == "redirect":
                    op["data"] = b.pick(gen.PIECES)
                    op["append"] = b.chance(50)
                    op["in"] = gen.path_ref(b, pool) if b.chance(40) else None
            else:
                op = gen.tree_op(b, [(1, kind)], pool, shell=True)
            if mounts and b.chance(40) and not isinstance(op["p"], str):
                op["p"] = mounts[b.below(len(mounts))] + "/" + b.pick(pool)
            if "to" in op and mounts and b.chance(50):
                op["to"] = mounts[b.below(len(mounts))] + b.pick(["", "/" + b.pick(pool)])
            if b.chance(fault_rate):
                op["fault"] = b.pick([["conflict", 0], ["conflict", 1], ["io", 0], ["io", 1],
                                      ["delete", 0], ["provider", 0], ["conflict", 2]])
            if op["op"] == "rm" and mounts and b.chance(25):
                op.update(p=mounts[0] + b.pick(["/a", "/d/b"]), fault=["delete", 0])
            if op["op"] == "mv" and mounts and b.chance(25):
                op.update(p=mounts[0] + b.pick(["/a", "/d/b", "/d", "/d/b"]), fault=["delete-once", 0])
            if b.chance(8):
                # take a provider's file while it is down, over something that exists
                op = gen.tree_op(b, [(2, "cp"), (1, "mv"), (1, "append")], pool, shell=True)
                op.update(prov=b.u8(), fault=["provider", 0])
                if "to" in op and b.chance(70):
                    op["to"] = {"file": b.u8()}
            if b.chance(30):
                # forbid (part of) the coming operation
                op["pre"] = [b.pick(["self", "parent", "to", "self"]),
                             b.pick([policy(w=False), policy(r=False), policy(ao=True), policy(r=False)])]
            out.append(op)
        return {"setup": setup, "mounts": mounts, "index": index, "ops": out}

    def snap(self, vfs, stores, events):
        return {"tree": sut.capture(vfs, times=True), "cwd": vfs.pwd(),
                "stores": [{k: (e.content, e.version) for k, e in s.list().items()}
                           for s in stores],
                "search": sorted((str(r.path), r.line_no, r.line_text)
                                 for r in vfs.search(SearchQuery("e"))),
                "events": list(events)}

    def run(self, case, env):
        vfs = sut.VirtualFileSystem()
        shell = sut.SandboxShell(vfs)
        m = Model()
        events, stores, providers = [], [], []
        ops.install(vfs, m, case["setup"])
        for mp in case["mounts"]:
            if m.find(mp) is not None or any(m.find(x) is not None and not m.find(x).is_dir
                                             for x in ("/a",)):
                continue
            store = FaultyMemory({"a": "stored here\n", "d/b": "deeper\n"})
            vfs.mount_storage(mp, store)
            stores.append(store)
        if case["index"]:
            vfs.enable_full_text_index()
        vfs.register_path_hook("/", lambda ev: events.append((ev.path, ev.event, ev.content)))
        vfs.register_write_hook("/", lambda ev: events.append((ev.path, ev.content, ev.version)))
        before = self.snap(vfs, stores, events)
        m.adopt(before["tree"], vfs.pwd())
        refused, kinds = 0, set()
        for i, op in enumerate(case["ops"]):
            if op["op"] == "extern":
                self.extern(op, stores)
                before = self.snap(vfs, stores, events)
                continue
            fault = op.get("fault")
            p = gen.resolve(op["p"], m)
            if "prov" in op and providers:
                p = providers[op["prov"] % len(providers)].at
            if "pre" in op:
                to = gen.resolve(op["to"], m) if "to" in op else p
                target = {"self": p, "to": to, "parent": p.rpartition("/")[0] or "/"}[op["pre"][0]]
                if m.find(target) is not None and target != "/":
                    vfs.set_policy(target, sut.pol(op["pre"][1]))
                    before = self.snap(vfs, stores, events)
                    m.adopt(before["tree"], "/")
                    m.cwd = m.find(vfs.pwd())
            if fault and fault[0] == "delete" and (
                    op["op"] != "rm" or m.find(p) is None or m.find(p).is_dir):
                fault = ["delete-once", 0] if op["op"] == "mv" else None
            if fault:
                once = [True]  # whichever store is asked first
                for s in stores:
                    s.armed = (fault[0], once if fault[0] == "delete-once" else fault[1])
                if fault[0] == "provider":
                    for pr in providers:
                        pr.down = True
            done, detail = self.act(vfs, shell, m, op, p, providers)
            for s in stores:
                s.armed = None
            for pr in providers:
                pr.down = False
            after = self.snap(vfs, stores, events)
            if not done:
                refused += 1
                kinds.add(op["op"])
                env.label("refused-" + op["op"], *(["fault-" + fault[0]] if fault else []))
                if op["op"] == "rm" and op["rec"] and m.find(p) is not None and m.find(p).is_dir:
                    self.partial(m, p, before, after, op)
                else:
                    what = f"step {i}: refused {op['op']} {p!r} {op.get('to', '')} ({detail})"
                    sut.compare(after["tree"], before["tree"], what)
                    for key in ("cwd", "stores", "search", "events"):
                        require(after[key] == before[key], f"{what} changed {key}",
                                sut.short(before[key]), sut.short(after[key]))
            before = after
            m.adopt(after["tree"], "/")
            if not vfs.is_dir(vfs.pwd()):
                ops.home(vfs, m)
                before = self.snap(vfs, stores, events)
            m.cwd = m.find(vfs.pwd())
        return refused >= 3 and len(kinds) >= 2 and len(before["tree"]) >= 4

    def extern(self, op, stores):
        for s in stores:
            entry = s.list().get("a")
            if entry is not None:
                s.write("a", op["data"], version=entry.version)

    def act(self, vfs, shell, m, op, p, providers):
        kind = op["op"]
        try:
            if kind == "redirect":
                src = gen.resolve(op["in"], m) if op["in"] is not None else None
                if not ops.shell_safe(p, src, op["data"]):
                    return True, None
                cmd = f"cat < {q(src)}" if src else f"echo {q(op['data'])}"
                res = sut.sh(shell, f"{cmd} {'>>' if op['append'] else '>'} {q(p)}")
                return res.exit_code == 0, res.stderr
            if kind == "read":
                return sut.attempt(vfs.read_file, p)
            if kind == "mountfile":
                if m.find(p) is not None and m.find(p).is_dir or m.deepest(p)[0].is_dir is False \
                        and m.deepest(p)[1]:
                    return True, None
                if any(p == mp or p.startswith(mp + "/") for mp in ("/m", "/a/m")):
                    return True, None
                pr = Switchable(op["data"])
                vfs.mount_file(p, pr)
                pr.at = p
                providers.append(pr)
                return True, None
            to = gen.resolve(op["to"], m) if "to" in op else None
            if op.get("via") == "sh" and ops.shell_safe(p, to, op.get("data")):
                res = sut.sh(shell, ops.shell_line(op, p, to))
                return res.exit_code == 0, res.stderr
            return ops.api_call(vfs, op, p, to)
        except Injected as exc:
            return False, exc

    def partial(self, m, p, before, after, op):
        """A refused recursive remove: only unprotected nodes below p may be gone."""
        what = f"refused recursive remove of {p!r}"
        top = m.norm(p)
        for path, rec in before["tree"].items():
            inside = path == top or path.startswith(top.rstrip("/") + "/")
            if path not in after["tree"]:
                require(inside, f"{what} removed {path!r}, outside")
                require(plain(m.find(path)), f"{what} removed the protected {path!r}")
            else:
                now = after["tree"][path]
                require({k: now[k] for k in rec if k != "times" or not rec["dir"]}
                        == {k: rec[k] for k in rec if k != "times" or not rec["dir"]},
                        f"{what} altered {path!r}", rec, now)
        require(set(after["tree"]) <= set(before["tree"]), f"{what} created nodes")
        require(after["cwd"] == before["cwd"], f"{what} changed the current directory")


CHECK = C03()

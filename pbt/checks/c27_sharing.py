"""C27: sandboxes, copies and snapshots share no mutable state."""
import copy

from pbt import gen, ops, searching, sut
from pbt.core import Check, require
from pbt.model import Model, policy
from pbt.sut import attempt
from sandfs import FullTextIndex, MemoryStorageAdapter, ProvidedNode
from sandfs.search import SearchQuery

POOL = ["a", "b", "c.txt", "d"]
PROVIDED = {"p1": ("needle one\n", {"k": 1}), "p2": ("two", {})}


class World:
    def __init__(self, i, case, env_dict):
        self.i = i
        self.vfs, self.m = sut.VirtualFileSystem(), Model()
        self.events = []
        self.shells = [sut.SandboxShell(self.vfs, env=env_dict, allowed_commands=None,
                                        view=sut.VisibilityView(principals={"x", "y"})) for _ in range(2)]
        self.env = [dict(env_dict) for _ in self.shells]
        self.extra = [set(), set()]


class C27(Check):
    id = "C27"
    rule = """interleaved histories on two sandboxes (with the same provider objects, initial
    mappings and environment dictionaries), copies, snapshots restored into either sandbox,
    in-place changes of metadata and policies of live nodes and of snapshots, shell variables and
    commands, collections handed to views, shells and mounts and changed afterwards, and changed adapter
    entries, with one reference state per sandbox, snapshot,
    shell and store, all compared after every step; non-trivial: a copy or a restore was
    followed by at least 2 in-place or content changes while another holder existed"""
    quick, thorough = 12000, 200000
    max_ops, op_bytes, cfg_bytes, min_ops = 25, 16, 40, 8
    assumptions = ["metadata values are immutable (only the metadata mapping itself is owned by its node)",
                   "the caller gives each set_policy call and provided node a policy object of its own"]

    def decode(self, cfg, raw):
        out = []
        for b in raw:
            kind = b.weighted([(8, "tree"), (4, "copy"), (4, "meta"), (4, "polmut"), (2, "policy"), (3, "snap"),
                               (3, "restore"), (2, "snapmut"), (2, "var"), (1, "cmd"), (1, "envmut"),
                               (3, "store"), (2, "search"), (1, "index"), (1, "cd"), (3, "given"), (2, "dyn"), (3, "mounted")])
            op = {"k": kind, "w": b.u8() % 2, "n": b.u8(), "v": b.u8(), "x": b.u8()}
            if kind == "tree":
                op["op"] = gen.tree_op(b, gen.TREE_OPS, POOL)
                if "data" in op["op"] and b.chance(40):
                    op["op"]["data"] = b.pick(["needle x\n", "two needle", "hay\n"])
            elif kind == "copy":
                op["op"] = gen.tree_op(b, [(1, "cp")], POOL)
                op["op"]["rec"] = True
                op["op"]["p"] = b.pick([{"node": b.u8()}, {"file": b.u8()}])
            out.append(op)
        return {"ops": out, "setup": gen.setup_tree(cfg, POOL, n=5), "prov": cfg.chance(50)}

    def run(self, case, env):
        shared_env = {"BASE": "base"}
        constants = {n: ProvidedNode.file(content=t, metadata=dict(meta)) for n, (t, meta) in PROVIDED.items()}
        worlds = [World(i, case, shared_env) for i in range(2)]
        for w in worlds:
            w.vfs.register_write_hook("/", w.events.append)
            w.vfs.register_path_hook("/", w.events.append)
            ops.install(w.vfs, w.m, case["setup"])
            if case["prov"]:
                w.vfs.mount_directory("/prov", lambda ctx: constants)
                w.m.mkdir("/prov")
                for n, (t, meta) in PROVIDED.items():
                    w.m.write(f"/prov/{n}", t)
                    w.m.find(f"/prov/{n}").meta = dict(meta)
                    w.m.find(f"/prov/{n}").version = 0
        self.snaps = []
        self.lent = [{"l": 1}, {"l": 2, "k0": 5}]
        initial = {"s1": "stored", "d/s2": "two"}
        self.stores = [{"adapter": MemoryStorageAdapter(initial), "want": {k: (v, 0) for k, v in initial.items()}}
                       for _ in range(2)]
        self.initial = initial
        spread = hits = 0
        for i, op in enumerate(case["ops"]):
            w, other = worlds[op["w"]], worlds[1 - op["w"]]
            what = f"step {i} {op}"
            quiet = len(other.events)
            done = self.step(w, other, op, what, shared_env, worlds)
            for x in worlds:
                got = sut.capture(x.vfs)
                sut.compare(got, x.m.state(), f"{what}: sandbox {x.i}")
                sut.adopt_versions(x.m, got)
                ops.settle(x.vfs, x.m)
                require(x.vfs.pwd() == x.m.pwd(), f"{what}: sandbox {x.i} is in {x.vfs.pwd()}")
                for k, sh in enumerate(x.shells):
                    require(sh.env == x.env[k], f"{what}: variables of shell {x.i}.{k}", repr(sh.env),
                            repr(x.env[k]))
            require(len(other.events) == quiet, f"{what}: the other sandbox's hooks were called")
            for k, (snap, want) in enumerate(self.snaps):
                sut.compare(frozen(snap), want, f"{what}: snapshot {k}")
            for k, st in enumerate(self.stores):
                now = {p: (e.content, e.version) for p, e in st["adapter"].list().items()}
                require(now == st["want"], f"{what}: store {k}", repr(now), repr(st["want"]))
            if done:
                env.label(op["k"])
                if op["k"] in ("copy", "restore"):
                    spread += 1
                elif spread and op["k"] in ("tree", "meta", "polmut", "snapmut"):
                    hits += 1
        return hits >= 2

    def step(self, w, other, op, what, shared_env, worlds):
        kind, n, v, x = op["k"], op["n"], op["v"], op["x"]
        vfs, m = w.vfs, w.m
        if kind in ("tree", "copy"):
            got = ops.play_both(vfs, None, m, op["op"])
            if got == "partial":
                m.adopt(sut.capture(vfs), m.pwd())
            return got == "ok"
        if kind in ("meta", "polmut", "policy", "cd"):
            pool = m.paths()
            p = pool[n % len(pool)]
            node = m.find(p)
            if kind == "meta":
                live = vfs.get_node(p).metadata
                if v % 4 == 0 and node.meta:
                    live.clear()
                    node.meta = {}
                else:
                    live[f"k{v % 3}"] = x
                    node.meta = dict(node.meta, **{f"k{v % 3}": x})
            elif kind == "polmut":
                pol = vfs.get_policy(p)
                if v % 3 == 0:
                    pol.principals.add("xy"[x % 2])
                    node.policy = dict(node.policy, pr=sorted({*node.policy["pr"], "xy"[x % 2]}))
                elif v % 3 == 1:
                    pol.classification = f"c{x % 3}"
                    node.policy = dict(node.policy, cls=f"c{x % 3}")
                elif not node.is_dir:
                    pol.writable = bool(x % 2)
                    node.policy = dict(node.policy, w=bool(x % 2))
            elif kind == "policy":
                new = [policy(), policy(pr=["x"]), policy(cls="secret"), policy(w=False)][v % 4]
                if node.is_dir and not new["w"]:
                    new = policy()
                vfs.set_policy(p, sut.pol(new))
                node.policy = dict(new)
            elif node.is_dir and node.policy["r"]:
                vfs.cd(p)
                m.cd(p)
            return True
        if kind == "snap":
            snap = vfs.snapshot()
            want = frozen(snap)
            sut.compare(want, m.state(), f"{what}: a new snapshot")
            self.snaps.append((snap, copy.deepcopy(want)))
            if len(self.snaps) > 3:
                self.snaps.pop(0)
            return True
        if kind == "restore":
            if not self.snaps:
                return False
            snap, want = self.snaps[n % len(self.snaps)]
            vfs.restore(snap)
            m.adopt(copy.deepcopy(want), "/")
            vfs.cd("/")
            return True
        if kind == "snapmut":
            if not self.snaps:
                return False
            k = n % len(self.snaps)
            snap, want = self.snaps[k]
            p = sorted(want)[v % len(want)]
            snap.nodes[p].metadata["snap"] = x
            want[p]["meta"]["snap"] = x
            if x % 2:
                snap.nodes[p].policy.principals.add("x")
                want[p]["policy"]["pr"] = sorted({*want[p]["policy"]["pr"], "x"})
            return True
        if kind == "var":
            s = n % 2
            name, value = f"V{v % 3}", f"val{x}"
            res = sut.sh(w.shells[s], f"{name}={value}")
            require(res.exit_code == 0, f"{what}: {res!r}")
            w.env[s][name] = value
            for y in worlds:
                for k, sh in enumerate(y.shells):
                    res = sut.sh(sh, f"echo :${{{name}}}: :$BASE:")
                    want = f":{y.env[k].get(name, str())}: :{y.env[k]['BASE']}:"
                    require(res.stdout.rstrip("\n") == want, f"{what}: shell {y.i}.{k} sees", repr(res), want)
            require(shared_env.get(name) is None, f"{what}: the caller's dictionary changed")
            return True
        if kind == "cmd":
            s = n % 2
            name = f"cmd{v % 2}"
            w.shells[s].register_command(name, lambda args, ctx: f"{w.i}.{s}")
            w.extra[s].add(name)
            for y in worlds:
                for k, sh in enumerate(y.shells):
                    res = sut.sh(sh, name)
                    require((res.exit_code == 0) == (name in y.extra[k]), f"{what}: {name} in shell {y.i}.{k}",
                            repr(res))
            return True
        if kind == "envmut":
            shared_env[f"OUT{v % 2}"] = str(x)
            self.initial[f"new{v % 2}"] = "added later"
            return True
        if kind == "dyn":
            return self.dynamic(w, n, v, x, what)
        if kind == "mounted":
            return self.mounted(w, n, v, x, what)
        if kind == "given":
            return self.given(w, n, v, x, what)
        if kind == "store":
            return self.store(self.stores[op["w"]], n, v, x)
        if kind == "search":
            for y in worlds:
                got = searching.found(y.vfs.search(SearchQuery("needle")))
                want = searching.expect(sut.capture(y.vfs), "needle")
                require(got == want, f"{what}: search in sandbox {y.i}", sut.short(got), sut.short(want))
            return True
        if kind == "index":
            vfs.enable_full_text_index(FullTextIndex() if v % 2 else None)
            return True
        return False

    def dynamic(self, w, n, v, x, what):
        """A copy or snapshot of a provided file keeps what the provider gave then."""
        vfs, m = w.vfs, w.m
        if m.find("/dyn") is not None or m.find("/dyn2") is not None or not m.root.policy["w"]:
            return False
        text = [f"first {x} needle\n"]
        vfs.mkdir("/dyn")
        vfs.mount_file("/dyn/p", lambda ctx: text[0])
        if n % 3 == 0:
            vfs.get_node("/dyn/p").metadata["k0"] = x
        if n % 2:
            vfs.read_file("/dyn/p")
        copies = ["/dyn2/p"]
        if v % 3 == 0:
            vfs.copy("/dyn", "/dyn2", recursive=True)
        else:
            vfs.mkdir("/dyn2")
            if v % 3 == 1:
                vfs.copy("/dyn/p", "/dyn2/p")
            else:
                vfs.copy("/dyn/p", "/dyn2")
        if x % 3 == 0:  # a copy of the copy
            vfs.copy("/dyn2/p", "/dyn2/q")
            copies.append("/dyn2/q")
        snap = vfs.snapshot()
        old, text[0] = text[0], f"second {x}\n"
        for c in copies:
            require(vfs.read_file(c) == old, f"{what}: the copy {c} follows the original's provider",
                    repr(vfs.read_file(c)), repr(old))
        require(vfs.read_file("/dyn/p") == text[0], f"{what}: the provided file stays as it was read "
                "before", repr(vfs.read_file("/dyn/p")))
        if x % 2:
            here = vfs.pwd()
            vfs.restore(snap)
            require(vfs.read_file("/dyn/p") == old, f"{what}: restored, the provided file is",
                    repr(vfs.read_file("/dyn/p")), repr(old))
            vfs.cd(here)
        vfs.write_file("/dyn/p", "settled")
        text[0] = "third"
        require(vfs.read_file("/dyn/p") == "settled", f"{what}: a written file is provided still")
        m.adopt(sut.capture(vfs), m.pwd())
        return True

    def mounted(self, w, n, v, x, what):
        """Provided nodes given metadata the caller goes on using, in either sandbox."""
        vfs, m = w.vfs, w.m
        lent = self.lent[v % 2]
        p = ["/lent", "/a/lent", "/lent2"][n % 3]
        if m.find(p) is None and m.deepest(p)[0].is_dir and m.deepest(p)[0].policy["w"]:
            now = dict(lent)
            if x % 3 == 0:
                vfs.mount_file(p, lambda ctx: f"needle {x}", metadata=lent)
                where = p
            elif x % 3 == 1:
                vfs.mount_directory(p, lambda ctx: {}, metadata=lent)
                where = p
            else:
                kid = ProvidedNode.file(content=f"k{x}", metadata=lent)
                if v % 3:
                    kid = ProvidedNode.directory(children={"q": kid}, metadata=lent)
                vfs.mount_directory(p, lambda ctx: {"kid": kid})
                where = p + "/kid"
            got = sut.capture(vfs)
            require(got[where]["meta"] == now, f"{what}: mounted with {now}", repr(got[where]["meta"]))
            m.adopt(got, m.pwd())
        lent[f"k{x % 3}"] = x
        if x % 5 == 0:
            lent.pop("l", None)
        return True

    def given(self, w, n, v, x, what):
        """Mappings, lists and sets handed over at construction stay the caller's own."""
        vfs, m = w.vfs, w.m
        meta, prefixes, classes, people = {}, ["/"], {"public", "c0"}, {"x"}
        if n % 4 == 0:
            meta = {"k0": x % 4}
        if n % 4 == 1:
            prefixes = [m.paths()[x % len(m.paths())]]
        allowed = ["echo", "pwd"]
        view = sut.VisibilityView(metadata_filters=meta, path_prefixes=prefixes, classifications=classes,
                                  principals=people)
        shell = sut.SandboxShell(vfs, view=view, allowed_commands=allowed)
        full = sut.SandboxShell(vfs, view=view)
        before = self.seen(vfs, view, m, shell, full)
        meta["zz"] = "new"
        meta.pop("k0", None)
        prefixes[:] = ["/elsewhere"] if v % 2 else []
        classes.clear()
        classes.add("secret")
        people.clear()
        people.add("y")
        allowed.append("ls")
        allowed.remove("echo")
        after = self.seen(vfs, view, m, shell, full)
        require(before == after, f"{what}: a view or shell follows the caller's own collections",
                sut.short([b for b, a in zip(before, after) if a != b]),
                sut.short([a for b, a in zip(before, after) if a != b]))
        return True

    def seen(self, vfs, view, m, shell, full):
        out = []
        for p in m.paths():
            if m.find(p).is_dir:
                done, got = attempt(vfs.ls, p, view=view)
                out.append((p, done, [e.name for e in got] if done else None))
            else:
                res = sut.sh(full, f"cat {p}")
                out.append((p, res.exit_code, res.stdout))
        return out + [sut.sh(shell, line).exit_code for line in ("echo x", "ls /", "pwd")]

    def store(self, st, n, v, x):
        a, want = st["adapter"], st["want"]
        names = sorted(want) or ["s1"]
        p = names[n % len(names)]
        how = v % 6
        if how == 0:
            e = a.write(p, f"w{x}", version=want.get(p, ("", 0))[1])
            want[p] = (f"w{x}", want.get(p, ("", 0))[1] + 1)
            require((e.content, e.version) == want[p], "write returned another entry", repr(e))
            e.content, e.version = "changed by the caller", 99
        elif how == 1 and p in want:
            e = a.read(p)
            e.content, e.version = "changed by the caller", 99
        elif how == 2:
            entries = a.list()
            for e in entries.values():
                e.content, e.version = "changed by the caller", 77
        elif how == 3:
            entries = a.list()
            entries.clear()
            entries["intruder"] = None
        elif how == 4 and len(want) > 1:
            a.delete(p)
            want.pop(p, None)
        else:
            a.write(f"n{x % 3}", "new", version=want.get(f"n{x % 3}", ("", 0))[1])
            want[f"n{x % 3}"] = ("new", want.get(f"n{x % 3}", ("", 0))[1] + 1)
        return True


def frozen(snap):
    return {p: {"dir": n.is_dir, "content": n.content, "version": n.version, "policy": sut.unpol(n.policy),
                "meta": dict(n.metadata)} for p, n in snap.nodes.items()}


CHECK = C27()

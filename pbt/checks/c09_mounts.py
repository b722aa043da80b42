"""C09: a storage mount and its adapter always hold the same files."""
import os
import pathlib

from pbt import gen, ops, sut
from pbt.core import Check, require
from pbt.model import Model, policy
from pbt.sut import q
from sandfs import MemoryStorageAdapter
from sandfs.providers import ProvidedNode
from sandfs.adapters import FileSystemAdapter

TABLE = [(6, "write"), (4, "append"), (3, "touch"), (3, "mkdir"), (5, "rm"), (6, "mv"), (6, "cp"),
         (2, "cd"), (3, "sync"), (2, "fresh"), (1, "policy"), (3, "redirect"), (1, "host"),
         (1, "expect"), (1, "pyrun"), (2, "provided")]
LAYOUTS = [["/m"], ["/m", "/m/in"], ["/m", "/z"], ["/m", "/m/d/in"], ["/m", "/mm", "/m/in"], ["/"],
           ["/", "/m"], ["/x/m"], ["/m", "/m/in", "/m/in/er"]]


class C09(Check):
    id = "C09"
    rule = """histories of write, append, touch, mkdir, remove, move, copy (files and trees,
    into, within, across and out of mounts), redirections, host scripts, provided files and directories (of changing content) moved in, and syncs on
    layouts of plain, sibling, root and nested mounts over in-memory and directory-backed
    adapters of several encodings; after every step each adapter's listing (and the bytes on disk) must equal
    the files below its mount, and the tree must equal the plain-filesystem model;
    non-trivial: at least 3 operations changed some store"""
    quick, thorough = 9000, 130000
    max_ops, op_bytes, cfg_bytes = 28, 22, 120

    def decode(self, cfg, raw):
        pool = gen.names(cfg, ("tiny", "tiny", "plain", "prefixy", "odd", "wild", "casey"))
        layout = cfg.pick(LAYOUTS)
        mounts = [{"at": at, "fs": cfg.chance(50), "init": [
            ["/".join(cfg.pick(pool) for _ in range(1 + cfg.below(3))), gen.text(cfg, big=False)]
            for _ in range(cfg.below(4))], "enc": cfg.weighted(
                [(7, "utf-8"), (1, "utf-16"), (1, "utf-32-be"), (1, "gb18030")])} for at in layout]
        order = cfg.chance(50)
        table = gen.swarm(cfg, TABLE)
        if not cfg.chance(15):
            table = [t for t in table if t[1] != "host"]
        setup = gen.setup_tree(cfg, pool, n=4, big=False)
        out = []
        for b in raw:
            kind = b.weighted(table)
            if kind in ("sync", "fresh"):
                op = {"op": kind, "k": b.u8()}
            elif kind == "policy":
                op = {"op": kind, "p": {"node": b.u8()},
                      "policy": b.pick([policy(w=False), policy(), policy()])}
            elif kind in ("redirect", "host", "pyrun"):
                op = {"op": kind, "p": self.ref(b, pool, layout), "data": b.pick(gen.PIECES),
                      "append": b.chance(40)}
            elif kind == "provided":
                op = {"op": kind, "p": self.ref(b, pool, layout), "k": b.u8()}
            elif kind == "expect":
                op = gen.tree_op(b, [(1, b.pick(["write", "append"]))], pool)
                op["expect"] = b.below(4)
                op["p"] = self.ref(b, pool, layout)
            else:
                op = gen.tree_op(b, [(1, kind)], pool, shell=True)
                if b.chance(60):
                    op["p"] = self.ref(b, pool, layout)
                if "to" in op and b.chance(60):
                    op["to"] = self.ref(b, pool, layout)
            out.append(op)
        return {"setup": setup, "mounts": mounts, "late": order, "ops": out}

    def ref(self, b, pool, layout):
        at = b.pick(layout).rstrip("/")
        return at + b.weighted([(2, ""), (6, "/" + b.pick(pool)),
                                (4, "/" + b.pick(pool) + "/" + b.pick(pool))]) or "/"

    def run(self, case, env):
        vfs = sut.VirtualFileSystem()
        shell = sut.SandboxShell(vfs)
        m = Model()
        if case["late"]:
            ops.install(vfs, m, case["setup"])
        stores = []
        self.coding = {mt["at"]: mt["enc"] for mt in case["mounts"]}
        for mt in case["mounts"]:
            taken = m.deepest(mt["at"])[0]
            if mt["at"] != "/" and (not taken.is_dir or m.find(mt["at"]) is not None
                                    and m.find(mt["at"]).kids):
                continue
            if mt["at"] == "/" and m.root.kids:
                continue
            init = self.clean(mt["init"])
            if mt["fs"]:
                root = env.scratch()
                for rel, text in init.items():
                    f = os.path.join(root, rel)
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    pathlib.Path(f).write_bytes(text.encode(mt["enc"]))
                adapter = FileSystemAdapter(pathlib.Path(root), **(
                    {} if mt["enc"] == "utf-8" else {"encoding": mt["enc"]}))
            else:
                root, adapter = None, MemoryStorageAdapter(init)
            vfs.mount_storage(mt["at"], adapter)
            stores.append((mt["at"], adapter, root))
            m.adopt(sut.capture(vfs))
            for rel, text in init.items():
                node = m.find(mt["at"].rstrip("/") + "/" + rel)
                require(node is not None and node.content == text, f"{rel!r} of the store is not "
                        f"shown at {mt['at']}")
        if not stores:
            return False
        m.adopt(sut.capture(vfs))
        if not case["late"]:
            ops.install(vfs, m, case["setup"])
        self.agree(vfs, stores, "after mounting")
        changed = 0
        stock = self.stock(stores)
        for i, op in enumerate(case["ops"]):
            what = f"step {i} {op}"
            got = self.step(vfs, shell, m, stores, op, what, env)
            if got is None:
                continue
            state = sut.capture(vfs)
            if got == "adopt":
                m.adopt(state, vfs.pwd() if vfs.is_dir(vfs.pwd()) else "/")
            elif got == "partial":
                m.adopt(state, vfs.pwd() if vfs.is_dir(vfs.pwd()) else "/")
            else:
                sut.compare(state, m.state(), what, versions=False)
                m.adopt(state, m.pwd() if not m.cwd_lost() else "/")
            self.agree(vfs, stores, what)
            now = self.stock(stores)
            if now != stock:
                changed += 1
                env.label("changed-" + op["op"])
            stock = now
            if not vfs.is_dir(vfs.pwd()) or vfs.get_node(vfs.pwd()) is not vfs.cwd:
                ops.home(vfs, m)
        return changed >= 3

    def clean(self, init):
        out = {}
        for rel, text in init:
            if rel.split("/")[0] in ("in", "er", "d") or rel in out:
                continue
            if any(k.startswith(rel + "/") or rel.startswith(k + "/") for k in out):
                continue
            out[rel] = text
        return out

    def stock(self, stores):
        return [{k: (e.content, e.version) for k, e in a.list().items()} for _, a, _ in stores]

    def owner(self, path, stores):
        best = None
        for at, _, _ in stores:
            inside = at == "/" or path.startswith(at + "/")
            if inside and (best is None or len(at) > len(best)):
                best = at
        return best

    def agree(self, vfs, stores, what):
        files = {at: {} for at, _, _ in stores}
        for path, rec in sut.capture(vfs).items():
            at = self.owner(path, stores)
            if not rec["dir"] and at is not None:
                files[at][path[len(at.rstrip("/")) + 1:]] = (rec["content"], rec["version"])
        for at, adapter, root in stores:
            held = {k: (e.content, e.version) for k, e in adapter.list().items()}
            require(held == files[at], f"{what}: the store of {at} and the tree differ",
                    "store: " + sut.short(held), "tree:  " + sut.short(files[at]))
            for k, (content, version) in held.items():
                e = adapter.read(k)
                require((e.content, e.version) == (content, version), f"{what}: adapter.read({k!r}) "
                        "and adapter.list() differ")
            if root is not None:
                disk = {}
                for base, _, names in os.walk(root):
                    for n in names:
                        f = os.path.join(base, n)
                        disk[os.path.relpath(f, root)] = pathlib.Path(f).read_bytes()
                want = {k: c.encode(self.coding[at]) for k, (c, _) in files[at].items()}
                require(disk == want, f"{what}: the bytes on disk for {at} differ from the tree",
                        sut.short(disk), sut.short(want))

    def step(self, vfs, shell, m, stores, op, what, env):
        kind = op["op"]
        if kind == "sync":
            at, _, _ = stores[op["k"] % len(stores)]
            if m.find(at) is None or not m.find(at).is_dir:
                return None
            before = sut.capture(vfs)
            vfs.sync_storage(at)
            after = sut.capture(vfs)
            inside = at.rstrip("/") + "/"
            for path, rec in before.items():
                if rec["dir"] and (path.startswith(inside) or path == at):
                    continue  # empty directories exist in the tree only
                require(path in after, f"{what}: {path!r} vanished")
                sut.compare({path: after[path]}, {path: rec}, what)
            for path, rec in after.items():
                # a removed directory of a nested mount is made again
                require(path in before or rec["dir"], f"{what}: {path!r} appeared")
            return "adopt"
        if kind == "fresh":
            at, adapter, root = stores[op["k"] % len(stores)]
            other = sut.VirtualFileSystem()
            other.mount_storage("/w", adapter)
            got = {p: (r["content"], r["version"]) for p, r in sut.capture(other).items()
                   if not r["dir"]}
            want = {"/w/" + k: (e.content, e.version) for k, e in adapter.list().items()}
            require(got == want, f"{what}: a fresh sandbox on the same store", sut.short(got),
                    sut.short(want))
            if root is not None:
                other = sut.VirtualFileSystem()
                other.mount_storage("/w", FileSystemAdapter(
                    pathlib.Path(root), encoding=self.coding[at]))
                got = {p: r["content"] for p, r in sut.capture(other).items() if not r["dir"]}
                require(got == {p: c for p, (c, _) in want.items()},
                        f"{what}: a fresh sandbox and adapter on the same directory")
            env.label("fresh")
            return "ok"
        if kind == "redirect":
            p = gen.resolve(op["p"], m)
            if not ops.shell_safe(p, op["data"]):
                return None
            sut.sh(shell, f"echo {q(op['data'])} {'>>' if op['append'] else '>'} {q(p)}")
            return "adopt"
        if kind == "pyrun":
            from sandfs import PythonExecutor
            p = gen.resolve(op["p"], m)
            sut.attempt(PythonExecutor(vfs).run, f"vfs.write_file({p!r}, {op['data']!r}, "
                        f"append={op['append']})")
            return "adopt"
        if kind == "provided":
            p = gen.resolve(op["p"], m)
            k = op["k"]
            if self.owner("/zzlive", stores) or not m.root.policy["w"] or m.find("/zzlive") is not None \
                    or self.owner(p.rstrip("/") + "/x", stores) is None \
                    or self.owner(p, stores) is None and not vfs.is_dir(p):
                return None
            ticks = []

            def tick(ctx):
                ticks.append(1)
                return f"tick {len(ticks)}\n" if k & 1 else "tick\n"
            if k & 2:
                vfs.mount_file("/zzlive", tick)
            else:
                vfs.mount_directory("/zzlive", lambda ctx: {
                    "live": ProvidedNode.file(content_provider=tick), "fix": ProvidedNode.file(content="fixed"),
                    "sub": ProvidedNode.directory(children={"live": ProvidedNode.file(content_provider=tick)})})
            if k & 4:
                ok = sut.attempt(vfs.move, "/zzlive", p)[0]
            else:
                ok = sut.attempt(vfs.copy, "/zzlive", p, recursive=True)[0]
            if vfs.exists("/zzlive"):
                vfs.remove("/zzlive", recursive=True)
            env.label("provided" if ok else "provided-refused")
            return "adopt"
        if kind == "host":
            p = gen.resolve(op["p"], m)
            if not all(c.isalnum() or c in "./" for c in p) or p == "/" or not p.isascii():
                return None
            ops.home(vfs, m)
            rel = "." + p
            sut.sh(shell, "sh -c " + q(
                f"rm -rf {rel}" if op["append"] else f"printf %s {q(op['data'])} > {rel}; "
                f"mkdir -p {rel}.d/sub; echo more > {rel}.d/sub/f; mv {rel} {rel}2"))
            env.label("host")
            return "adopt"
        return ops.play_both(vfs, shell, m, op)


CHECK = C09()

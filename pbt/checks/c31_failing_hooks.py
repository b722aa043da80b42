"""C31: a hook that fails never leaves tree, store and search at odds."""
import os
import pathlib

from pbt import gen, ops, searching, sut
from pbt.core import Check, Violation, require
from pbt.model import Model, Partial, Refused
from pbt.views import within
from sandfs import MemoryStorageAdapter, SearchQuery
from sandfs.adapters import FileSystemAdapter
from sandfs.exceptions import InvalidOperation, NodeExists, NodeNotFound


class Injected(Exception):
    pass


FAULTS = [Injected, ValueError, InvalidOperation, NodeNotFound, KeyError, NodeExists, FileNotFoundError]
TABLE = [(6, "write"), (4, "append"), (2, "touch"), (5, "rm"), (6, "mv"), (5, "cp"), (1, "mkdir"),
         (1, "cd"), (1, "policy")]


class C31(Check):
    id = "C31"
    rule = """histories of operations through API and shell on trees with storage mounts (in
    memory and directory-backed) and the full-text index on or off, with write and path hooks of
    which one, for any of the operations, raises an error of one of seven types on the n-th event;
    after each operation the tree must equal the state before or the operation's full result
    (recursive removal: what survives is unaltered), stores must hold exactly the mounted files,
    searches must equal a reference search over the tree, and later operations must behave as the
    model says; non-trivial: at least 2 operations were hit and 1 followed"""
    quick, thorough = 8000, 130000
    max_ops, op_bytes, cfg_bytes, min_ops = 24, 28, 90, 4
    assumptions = ["hooks change nothing in the sandbox"]

    def decode(self, cfg, raw):
        pool = gen.names(cfg, ("tiny", "tiny", "plain", "prefixy", "odd"))
        setup = gen.setup_tree(cfg, pool, big=False)
        mounts = [{"at": at, "fs": cfg.chance(25)} for at in ["/m", "/a/m"][:cfg.below(3)]]
        hooks = [{"k": cfg.pick(["write", "path"]), "at": cfg.pick(["/", "/", "/", "/a", "/m", "/b"])}
                 for _ in range(1 + cfg.below(3))]
        table = gen.swarm(cfg, TABLE)
        out = []
        for b in raw:
            op = gen.tree_op(b, table, pool, shell=True)
            if op.get("op") == "policy":
                op["policy"] = dict(op["policy"], r=True)
            if mounts and b.chance(35):
                op["p"] = b.pick(mounts)["at"] + b.pick(["/a", "/d/b", "/d", "/" + b.pick(pool)])
            if "to" in op and mounts and b.chance(40):
                op["to"] = b.pick(mounts)["at"] + b.pick(["", "/d", "/" + b.pick(pool)])
            if b.chance(60):
                op["arm"] = {"hook": b.u8(), "nth": b.weighted([(5, 0), (2, 1), (1, 2)]),
                             "err": b.u8() % len(FAULTS)}
            if op["op"] in ("rm", "mv", "append") and b.chance(40):
                op["p"] = {"file": b.u8()}
            if op["op"] == "cp" and b.chance(50):
                op.update(p={"file": b.u8()}, to=b.pick([{"file": b.u8()}, {"dir": b.u8(), "name": b.pick(pool)}]))
            if op["op"] == "mv" and b.chance(50):
                op["to"] = {"dir": b.u8(), "name": b.pick(pool) + b.pick(["1", "2"])}
            out.append(op)
        return {"setup": setup, "mounts": mounts, "hooks": hooks, "index": cfg.chance(60),
                "ops": out}

    def run(self, case, env):
        vfs = sut.VirtualFileSystem()
        shell = sut.SandboxShell(vfs)
        m = Model()
        ops.install(vfs, m, case["setup"])
        stores = []
        for mt in case["mounts"]:
            top, rest = m.deepest(mt["at"])
            if not rest or not top.is_dir:
                continue
            init = {"a": "stored needle\n", "d/b": "deeper\n"}
            root = None
            if mt["fs"]:
                root = env.scratch()
                os.mkdir(os.path.join(root, "d"))
                for rel, text in init.items():
                    pathlib.Path(root, rel).write_bytes(text.encode())
                store = FileSystemAdapter(root)
            else:
                store = MemoryStorageAdapter(init)
            vfs.mount_storage(mt["at"], store)
            stores.append((mt["at"], store))
            m.adopt(sut.capture(vfs))
        if case["index"]:
            vfs.enable_full_text_index()
        self.armed, self.hit, self.left = None, False, 0
        for i, h in enumerate(case["hooks"]):
            reg = vfs.register_write_hook if h["k"] == "write" else vfs.register_path_hook
            reg(h["at"], self.hook(i))
        hits, later = 0, 0
        for i, op in enumerate(case["ops"]):
            before = sut.capture(vfs)
            m.adopt(before, vfs.pwd() if vfs.is_dir(vfs.pwd()) else "/")
            if not vfs.is_dir(vfs.pwd()):
                ops.home(vfs, m)
            p = gen.resolve(op["p"], m)
            to = gen.resolve(op["to"], m) if "to" in op else None
            via = op.get("via", "api")
            if via == "sh" and not ops.shell_safe(p, to, op.get("data")):
                via = "api"
            op = dict(op, via=via)
            what = f"step {i} {op} ({p!r} {to!r})"
            self.hit, self.armed = False, None
            if "arm" in op:
                self.armed = (op["arm"]["hook"] % len(case["hooks"]), FAULTS[op["arm"]["err"]])
                self.left = op["arm"]["nth"]
            done, detail = self.act(vfs, shell, op, p, to)
            self.armed = None
            try:
                ops.model_call(m, op, p, to)
                want = "ok"
            except Refused:
                want = "refused"
            except Partial:
                want = "partial"
            after = sut.capture(vfs)
            if self.hit:
                hits += 1
                require(want != "refused", f"{what}: an event was delivered although the operation "
                        "is to be refused")
                require(not done, f"{what}: the hook's failure was not reported")
                self.whole(m, op, p, before, after, want, what)
                env.label("hit-" + op["op"])
            else:
                later += hits > 0 and want == "ok"
                require(done == (want == "ok"), f"{what}: should be {want}, but", repr(detail))
                if want == "ok":
                    sut.compare(after, m.state(), what, versions=False)
                elif want == "refused":
                    sut.compare(after, before, what)
            self.agree(vfs, stores, after, what)
        for at, _ in stores:
            if vfs.is_dir(at) and vfs.get_policy(at).writable:
                vfs.write_file(at + "/last~", "last\n")
        self.agree(vfs, stores, sut.capture(vfs), "at the end")
        return hits >= 2 and later >= 1

    def hook(self, i):
        def call(event):
            if self.armed and self.armed[0] == i and not self.hit:
                if self.left == 0:
                    self.hit = True
                    raise self.armed[1]("injected")
                self.left -= 1
        return call

    def act(self, vfs, shell, op, p, to):
        if op["via"] == "sh":
            res = sut.sh(shell, ops.shell_line(op, p, to))
            return res.exit_code == 0, res
        try:
            return ops.api_call(vfs, op, p, to)
        except tuple(FAULTS) as exc:
            if not self.hit:
                raise
            return False, exc

    def whole(self, m, op, p, before, after, want, what):
        if op["op"] == "rm" and op["rec"]:
            for path in set(before) | set(after):
                if not within(path, p):
                    require(before.get(path) == after.get(path), f"{what}: changed {path!r}")
                elif path in after:
                    require(before.get(path) == after[path], f"{what}: altered {path!r}")
            return
        try:
            sut.compare(after, before, what)
        except Violation:
            sut.compare(after, m.state(), what + " (failed in a hook: half done)", versions=False)

    def agree(self, vfs, stores, state, what):
        inner = [at for at, _ in stores]
        for at, store in stores:
            want = {}
            for path, rec in state.items():
                if rec["dir"] or not within(path, at) or path == at:
                    continue
                if any(o != at and within(o, at) and within(path, o) for o in inner):
                    continue
                want[path[len(at) + 1:]] = (rec["content"], rec["version"])
            got = {k: (e.content, e.version) for k, e in store.list().items()}
            require(got == want, f"{what}: the store at {at} holds", sut.short(got), sut.short(want))
        for text in ("e", "needle"):
            got = searching.found(vfs.search(SearchQuery(text)))
            want = searching.expect(state, text)
            require(got == want, f"{what}: a search for {text!r} finds", sut.short(got), sut.short(want))


CHECK = C31()

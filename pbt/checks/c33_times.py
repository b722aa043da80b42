"""C33: times and metadata tell a node's own history."""
import time

from pbt import gen, lazy, ops, sut
from pbt.core import Check, require
from pbt.model import Model
from pbt.sut import q
from sandfs import MemoryStorageAdapter

READS = ["cat {p}", "ls {d}", "ls -l {d}", "stat {p}", "tree {d}", "find {d}", "grep -r needle {d}", "head {p}",
         "tail -n 1 {p}", "wc {p}", "search needle {d}", "cat < {p}", "cat {p} | grep x", "pwd", "help", "rg x {d}"]
SLACK = 0.0005  # rounding of clock readings
META = [["tag", "x"], ["tag", "y"], ["n", 1], ["owner", None], ["\u00fc", "two words"]]


class C33(Check):
    id = "C33"
    rule = """histories of tree operations, policies, metadata, reads, snapshots and restores through
    API and shell, sometimes with a storage mount or lazily provided directories; the times of
    every node are compared with the clock around the operation that made or last changed it, and
    with their former value otherwise; metadata is compared with a reference; non-trivial: at
    least 4 accepted operations, one of them a later change, touch or move of a known file"""
    quick, thorough = 20000, 400000
    max_ops, op_bytes, cfg_bytes, min_ops = 30, 20, 90, 3
    assumptions = ["the clock does not go back; times of a fresh copy and modification times of "
                   "directories are not judged, only that they stay as they are afterwards"]

    def decode(self, cfg, raw):
        pool = gen.names(cfg)
        table = gen.swarm(cfg, gen.TREE_OPS)
        shell = cfg.chance(50)
        bits = lazy.choose(cfg, 20)
        setup = gen.setup_tree(cfg, pool, big=False) if bits or cfg.chance(60) else []
        out = []
        for b in raw:
            kind = b.weighted([(12, "tree"), (2, "meta"), (2, "policy"), (4, "read"), (1, "snap"),
                               (1, "back"), (2, "redirect"), (1, "again")])
            if kind == "tree":
                op = gen.tree_op(b, table, pool, shell=shell)
                if b.chance(25):
                    op["rel"] = True
            elif kind == "meta":
                op = {"op": "meta", "p": {"node": b.u8()}, "set": b.pick(META), "how": b.below(2)}
            elif kind == "policy":
                op = {"op": "policy", "p": {"node": b.u8()}, "policy": gen.some_policy(b)}
            elif kind == "read":
                op = {"op": "read", "line": b.pick(READS), "p": {"node": b.u8()}, "d": {"dir": b.u8(), "name": "."}}
            elif kind == "redirect":
                op = {"op": "redirect", "p": gen.path_ref(b, pool), "append": b.chance(50)}
            else:
                op = {"op": kind, "p": {"file": b.u8()}}
            out.append(op)
        return {"ops": out, "setup": setup, "lazy": bits,
                "mount": cfg.pick([None, None, {}, {"a": "stored\n", "b/c": "x"}])}

    def run(self, case, env):
        vfs = sut.VirtualFileSystem()
        shell = sut.SandboxShell(vfs)
        m = Model()
        ops.install(vfs, m, case["setup"], case["lazy"])
        if case["mount"] is not None and not m.find("/mnt"):
            vfs.mount_storage("/mnt", MemoryStorageAdapter(dict(case["mount"])))
            m.mkdir("/mnt")
            for p, text in case["mount"].items():
                m.write("/mnt/" + p, text)
        got = sut.capture(vfs, times=True)
        sut.compare(got, m.state(), "set up", versions=False)
        sut.adopt_versions(m, got)
        now = time.time() + SLACK
        for p, rec in got.items():
            require(all(0 < t <= now for t in rec["times"]), f"times of {p!r} are {rec['times']}, now {now}")
        self.times = {n: got[n.path()]["times"] for n in m.root.walk()}
        saved, done, later = None, 0, 0
        for i, op in enumerate(case["ops"]):
            what, kind = f"step {i} {op}", op["op"]
            fresh, changed = "made", []
            start = time.time() - SLACK
            if kind == "snap":
                saved = (vfs.snapshot(), sut.capture(vfs, times=True), m.pwd())
                result = "ok"
            elif kind == "back":
                if saved is None or case["mount"] is not None:
                    continue
                vfs.restore(saved[0])
                m.adopt(saved[1], saved[2])
                self.times = {n: saved[1][n.path()]["times"] for n in m.root.walk()}
                result = "ok"
            elif kind == "meta":
                p = gen.resolve(op["p"], m)
                node, (k, v) = vfs.get_node(p), op["set"]
                if op["how"]:
                    node.metadata[k] = v
                else:
                    node.metadata = {**node.metadata, k: v}
                m.find(p).meta[k] = v
                result = "ok"
            elif kind == "policy":
                p = gen.resolve(op["p"], m)
                if m.find(p).is_dir and op["policy"]["ao"]:
                    continue
                result = ops.play_both(vfs, shell, m, op)
            elif kind == "read":
                p, d = gen.resolve(op["p"], m), gen.resolve(op["d"], m)
                if ops.shell_safe(p, d):
                    sut.sh(shell, op["line"].format(p=q(p), d=q(d)))
                result = "ok"
            elif kind == "redirect":
                p = gen.resolve(op["p"], m)
                want = {"op": "append" if op["append"] else "write", "p": p, "data": "redirected\n"}
                if not ops.shell_safe(p):
                    continue
                ok = sut.sh(shell, f"echo redirected {'>>' if op['append'] else '>'} {q(p)}").exit_code == 0
                try:
                    ops.model_call(m, want, p)
                    result = "ok"
                except ops.Refused:
                    result = "refused"
                require(ok == (result == "ok"), f"{what}: worked: {ok}, expected {result}")
                if ok:
                    changed = [m.find(p)]
            else:
                tree = dict(op, op="write", data=m.find(gen.resolve(op["p"], m)).content) \
                    if kind == "again" and m.files() else op
                if tree["op"] == "again":
                    continue
                target = m.norm(gen.resolve(tree["p"], m))
                result = ops.play_both(vfs, shell, m, tree)
                if result == "ok" and tree["op"] in ("write", "append", "touch"):
                    changed = [m.find(target)]
                if tree["op"] == "cp":
                    fresh = "copied"
                later += bool(result == "ok" and (tree["op"] == "mv" or changed and changed[0] in self.times))
            end = time.time() + SLACK
            done += result == "ok" and kind != "read"
            env.label(f"{kind}-{result}")
            got = sut.capture(vfs, times=True)
            if result == "partial":
                old = {n.path(): t for n, t in self.times.items() if n.top() is m.root}
                m.adopt(got, m.pwd() if m.pwd() in got else "/")
                self.times = {n: old[n.path()] for n in m.root.walk()}
                ops.home(vfs, m)
            sut.compare(got, m.state(), what, versions=False)
            sut.adopt_versions(m, got)
            self.judge(m, got, changed, fresh, start, end, what)
            ops.settle(vfs, m)
        return done >= 4 and later

    def judge(self, m, got, changed, fresh, start, end, what):
        times = {}
        for n in m.root.walk():
            p = n.path()
            born, modified = got[p]["times"]
            if n not in self.times:
                if fresh == "copied":
                    require(0 < born <= end and 0 < modified <= end, f"{what}: times of the copy {p!r}",
                            [born, modified], [start, end])
                else:
                    require(start <= born <= end and start <= modified <= end,
                            f"{what}: times of the new {p!r} are not now", [born, modified], [start, end])
            elif n in changed:
                require(born == self.times[n][0], f"{what}: creation time of {p!r} changed")
                require(start <= modified <= end, f"{what}: {p!r} was changed but its modification time is "
                        "not now", modified, [start, end])
            else:
                old = self.times[n]
                require(born == old[0] and (modified == old[1] or n.is_dir and old[1] <= modified <= end),
                        f"{what}: times of {p!r} changed from {old} to {[born, modified]}")
            times[n] = (born, modified)
        self.times = times


CHECK = C33()

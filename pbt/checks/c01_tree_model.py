"""C01: the tree is a plain hierarchical filesystem (model-based, stateful)."""
from pbt import gen, lazy, ops, sut
from pbt.core import Check, require
from pbt.model import Model, Refused
from pbt.sut import attempt


class C01(Check):
    id = "C01"
    rule = """random histories of mkdir/write/append/touch/rm/mv/cp/cd through API calls and
    shell commands against a reference filesystem, from an empty tree, a given one (some a
    dozen levels deep or dozens of entries wide) or one whose directories are provided on first
    use, whole tree compared after every step (or after several);
    non-trivial: at least 4 accepted operations including a move, copy or remove, or a
    refused one, and a final tree of 3 or more nodes"""
    quick, thorough = 28000, 500000
    max_ops, op_bytes, cfg_bytes = 40, 16, 90

    def decode(self, cfg, raw):
        pool = gen.names(cfg)
        table = gen.swarm(cfg, gen.TREE_OPS)
        shell = cfg.chance(50)
        out = []
        for b in raw:
            op = gen.tree_op(b, table, pool, shell=shell)
            if b.chance(25):
                op["rel"] = True
            out.append(op)
        bits = lazy.choose(cfg)
        setup = gen.setup_tree(cfg, pool, big=False) if bits or cfg.chance(30) else []
        return {"ops": out, "lazy": bits, "setup": setup,
                "every": cfg.pick([1, 1, 3, 8]) if bits else 1}

    def run(self, case, env):
        vfs = sut.VirtualFileSystem()
        shell = sut.SandboxShell(vfs)
        m = Model()
        ops.install(vfs, m, case["setup"], case["lazy"])
        counts = {"ok": 0, "refused": 0, "structural": 0}
        for i, op in enumerate(case["ops"]):
            got = ops.play_both(vfs, shell, m, op)
            counts[got] = counts.get(got, 0) + 1
            if got == "ok" and op["op"] in ("mv", "cp", "rm"):
                counts["structural"] += 1
            env.label(f"{op['op']}-{got}")
            if i % case["every"] == case["every"] - 1:
                state = sut.capture(vfs)
                sut.compare(state, m.state(), f"after step {i} {op}", versions=False)
                sut.adopt_versions(m, state)
            else:  # leave directories that are provided on first use unvisited
                for n in m.root.walk():
                    n.version = n.version or 0
            ops.settle(vfs, m)
            require(vfs.pwd() == m.pwd(), f"pwd is {vfs.pwd()!r}, expected {m.pwd()!r} after {op}")
        sut.compare(sut.capture(vfs), m.state(), "in the end", versions=False)
        self.queries(vfs, m, case)
        return (counts["ok"] >= 4 and (counts["structural"] or counts["refused"])
                and len(m.paths()) >= 3)

    def queries(self, vfs, m, case):
        paths = m.paths()
        extra = ["/zz", "/a/zz", (paths[-1] if paths[-1] != "/" else "") + "/under"]
        for p in paths + extra:
            node = m.find(p)
            require(vfs.exists(p) == (node is not None), f"exists({p!r}) is {vfs.exists(p)}")
            require(vfs.is_dir(p) == (node is not None and node.is_dir), f"is_dir({p!r})")
            require(vfs.is_file(p) == (node is not None and not node.is_dir), f"is_file({p!r})")
            for name in ("read", "ls"):
                try:
                    want = (True, getattr(m, name)(p))
                except Refused:
                    want = (False, None)
                if name == "read":
                    ok, got = attempt(vfs.read_file, p)
                else:
                    ok, got = attempt(vfs.ls, p)
                    if ok:
                        require(len({e.name for e in got}) == len(got), f"ls({p!r}) repeats a name")
                        got = {e.name: e.is_dir for e in got}
                require(ok == want[0], f"{name}({p!r}) {'worked' if ok else 'failed'}", repr(got))
                if ok:
                    require(got == want[1], f"{name}({p!r}) is wrong", sut.short(got),
                            sut.short(want[1]))


CHECK = C01()

"""C04: versions count writes; stale expectations never overwrite (several optimistic writers)."""
from pbt import gen, ops, sut
from pbt.core import Check, require
from pbt.model import Model, Refused
from pbt.sut import attempt, q
from sandfs import MemoryStorageAdapter

TABLE = [(8, "cas"), (5, "hold"), (5, "write"), (5, "append"), (3, "touch"), (4, "cp"), (2, "mv"),
         (2, "rm"), (2, "read"), (3, "redirect"), (1, "policy"), (1, "mkdir"), (1, "burst")]


class C04(Check):
    id = "C04"
    rule = """histories in which several optimistic writers hold versions read earlier and write
    with them (also with future, zero and negative ones) between plain writes, appends,
    redirections, copies over the file, touches, moves, removes, refused writes and bursts
    of writes, inside and outside a storage mount, against a version-counting model;
    non-trivial: at least one accepted and one rejected conditional write"""
    quick, thorough = 24000, 400000
    max_ops, op_bytes, cfg_bytes = 40, 16, 64

    def decode(self, cfg, raw):
        pool = gen.names(cfg, ("tiny", "tiny", "plain", "casey"))
        table = gen.swarm(cfg, TABLE)
        setup = gen.setup_tree(cfg, pool, n=4, big=False)
        mount = cfg.chance(50)
        shell = cfg.chance(60)
        out = []
        for b in raw:
            kind = b.weighted(table)
            if kind in ("cas", "hold", "read", "burst"):
                op = {"op": kind, "p": {"file": b.u8()} if b.chance(85) else gen.path_ref(b, pool)}
                if kind == "cas":
                    op.update(w=b.below(4), data=gen.text(b, big=False), append=b.chance(35),
                              guess=b.weighted([(8, None), (2, "cur"), (1, "next"), (1, 0),
                                                (1, -1), (1, 1), (1, 1000000)]))
                    op["same"] = b.chance(80)
                elif kind == "hold":
                    op["w"] = b.below(4)
                elif kind == "burst":
                    op["n"] = b.pick([3, 12, 120])
            elif kind == "redirect":
                op = {"op": kind, "p": gen.path_ref(b, pool), "data": b.pick(gen.PIECES),
                      "append": b.chance(50)}
            else:
                op = gen.tree_op(b, [(1, kind)], pool, shell=shell)
                if kind in ("write", "append", "touch", "cp") and b.chance(50):
                    op["p"] = {"file": b.u8()}
                if kind == "cp" and b.chance(60):
                    op["to"] = {"file": b.u8()}
            out.append(op)
        return {"setup": setup, "mount": mount, "ops": out}

    def run(self, case, env):
        vfs = sut.VirtualFileSystem()
        shell = sut.SandboxShell(vfs)
        m = Model()
        ops.install(vfs, m, case["setup"])
        if case["mount"] and m.find("/m") is None:
            vfs.mount_storage("/m", MemoryStorageAdapter({"a": "one\n", "b": "two\n"}))
        m.adopt(sut.capture(vfs))
        held = {}
        seen = set()
        for i, op in enumerate(case["ops"]):
            p = gen.resolve(op["p"], m)
            what = f"step {i} {op}"
            kind = op["op"]
            if kind == "hold":
                ok, v = attempt(vfs.get_version, p)
                node = m.find(p)
                require(ok == (node is not None and not node.is_dir), f"{what}: get_version", v)
                if ok:
                    require(v == node.version, f"{what}: get_version({p!r}) is {v}, expected "
                            f"{node.version}")
                    held[op["w"]] = (p, v)
                continue
            if kind == "read":
                attempt(vfs.read_file, p)
            elif kind == "burst":
                for k in range(op["n"]):
                    o = {"op": "append" if k % 2 else "write", "p": p, "data": f"{k} "}
                    if ops.play_both(vfs, shell, m, o) != "ok":
                        break
            elif kind == "cas":
                if op["guess"] is None:
                    if op["w"] not in held:
                        continue
                    hp, expect = held[op["w"]]
                    if op["same"]:
                        p = hp
                else:
                    node = m.find(p)
                    cur = node.version if node is not None and not node.is_dir else 0
                    expect = {"cur": cur, "next": cur + 1}.get(op["guess"], op["guess"])
                o = {"op": "append" if op["append"] else "write", "p": p, "data": op["data"],
                     "expect": expect}
                got = ops.play_both(vfs, shell, m, o)
                seen.add(("cas", got))
                env.label("cas-" + got)
            elif kind == "redirect":
                if not ops.shell_safe(p):
                    continue
                res = sut.sh(shell, f"echo {q(op['data'])} {'>>' if op['append'] else '>'} {q(p)}")
                try:
                    m.write(p, op["data"] + "\n", append=op["append"])
                    want = True
                except Refused:
                    want = False
                require((res.exit_code == 0) == want, f"{what}: redirection", repr(res))
            else:
                src = m.find(p)
                old = src.path() if src is not None else ""
                got = ops.play_both(vfs, shell, m, op)
                if kind == "mv" and got == "ok" and case["mount"]:
                    for n in src.walk():
                        if "/m" in (old[:2], n.path()[:2]):  # storage keeps its own count
                            n.version = None
                if got == "partial":
                    m.adopt(sut.capture(vfs), m.pwd())
                env.label(kind + "-" + got)
            state = sut.capture(vfs)
            sut.compare(state, m.state(), what)
            sut.adopt_versions(m, state)
            for path, rec in state.items():
                if not rec["dir"]:
                    require(vfs.get_version(path) == rec["version"] >= 0, f"{what}: get_version")
            ops.settle(vfs, m)
        return ("cas", "ok") in seen and ("cas", "refused") in seen


CHECK = C04()

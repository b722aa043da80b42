"""C05: write policies are never bypassed and block nothing else (model-based)."""
from pbt import gen, lazy, ops, sut
from pbt.core import Check, require
from pbt.model import Model, Refused, policy
from pbt.sut import q
from sandfs import MemoryStorageAdapter, ProvidedNode

TABLE = gen.TREE_OPS + [(5, "policy"), (3, "redirect"), (1, "py"), (2, "multi"), (1, "glob"),
                        (1, "host")]


class C05(Check):
    id = "C05"
    rule = """histories of modifying operations through API, shell (single and several operands,
    globs, redirections), python snippets and a few host commands, while nodes are made
    read-only, append-only (files) and writable again, inside and outside storage mounts
    and provided directories, against a policy-aware model; non-trivial: at least 2
    operations refused because of a policy and 2 accepted while one is in force"""
    quick, thorough = 18000, 300000
    max_ops, op_bytes, cfg_bytes = 36, 18, 96
    assumptions = ["append-only directories are not generated (only files are specified)",
                   "a refused recursive remove or multi-operand command may have done part "
                   "of its unprotected work"]

    def decode(self, cfg, raw):
        pool = gen.names(cfg, ("tiny", "tiny", "plain", "prefixy", "casey"))
        table = gen.swarm(cfg, TABLE)
        if not cfg.chance(12):
            table = [t for t in table if t[1] != "host"]
        setup = gen.setup_tree(cfg, pool, big=False)
        bits = lazy.choose(cfg)
        shell = cfg.chance(60)
        out = []
        for b in raw:
            kind = b.weighted(table)
            if kind == "policy":
                op = {"op": kind, "p": {"node": b.u8()},
                      "policy": b.weighted([(6, policy(w=False)), (4, policy(ao=True)),
                                            (3, policy()), (1, policy(r=False)),
                                            (1, policy(w=False, ao=True))])}
            elif kind == "redirect":
                op = {"op": kind, "p": gen.path_ref(b, pool), "data": b.pick(gen.PIECES),
                      "append": b.chance(50)}
            elif kind == "multi":
                op = {"op": kind, "cmd": b.pick(["rm", "rm -r", "touch", "mkdir", "mkdir -p"]),
                      "ps": [gen.path_ref(b, pool) for _ in range(2 + b.below(2))]}
            elif kind == "glob":
                op = {"op": kind, "cmd": b.pick(["rm", "rm -r", "touch"]),
                      "p": {"node": b.u8()}}
            elif kind in ("py", "host"):
                op = {"op": kind, "p": gen.path_ref(b, pool), "data": b.pick(gen.PIECES),
                      "what": b.pick(["write", "append", "rm"])}
            else:
                op = gen.tree_op(b, [(1, kind)], pool, shell=shell)
            out.append(op)
        return {"setup": setup, "mount": cfg.chance(40), "lazy": bits, "ops": out}

    def run(self, case, env):
        vfs = sut.VirtualFileSystem()
        shell = sut.SandboxShell(vfs)
        m = Model()
        ops.install(vfs, m, case["setup"], case["lazy"])
        if case["mount"] and not case["lazy"] and m.find("/m") is None and m.find("/v") is None:
            vfs.mount_storage("/m", MemoryStorageAdapter({"a": "one\n", "d/b": "two\n"}))
            vfs.mount_directory("/v", lambda ctx: {
                "ro": ProvidedNode.file(content="given\n", policy=sut.pol(policy(w=False))),
                "d": ProvidedNode.directory(children={"x": ProvidedNode.file(content="x\n")},
                                            policy=sut.pol(policy(w=False)))})
        if not case["lazy"]:
            m.adopt(sut.capture(vfs))
        blocked = passed = 0
        for i, op in enumerate(case["ops"]):
            what = f"step {i} {op}"
            kind = op["op"]
            strict = [n for n in m.root.walk() if not n.policy["w"] or n.policy["ao"]]
            if kind == "policy":
                node = m.find(gen.resolve(op["p"], m))
                if node.is_dir and op["policy"]["ao"]:
                    op = dict(op, policy=policy(w=False))
            if kind in ("redirect", "py", "host", "multi", "glob"):
                got = getattr(self, "do_" + kind)(vfs, shell, m, op, what)
            else:
                free = free_outcome(m, op) if strict else None
                got = ops.play_both(vfs, shell, m, op)
                if free == "ok" and got != "ok":
                    blocked += 1
                    env.label("blocked-" + kind)
                elif strict and got == "ok" and kind != "policy":
                    passed += 1
            state = sut.capture(vfs)
            if got in ("partial", "loose"):
                self.loose(m, state, what)
                m.adopt(state, vfs.pwd() if vfs.is_dir(vfs.pwd()) else "/")
                env.label("loose-" + kind)
            else:
                if got is None:
                    continue
                sut.compare(state, m.state(), what, versions=False)
                sut.adopt_versions(m, state)
            if not vfs.is_dir(vfs.pwd()) or m.cwd_lost():
                ops.home(vfs, m)
        return blocked >= 2 and passed >= 2

    def loose(self, m, state, what):
        """Whatever the operation did, protected nodes are intact (m: before)."""
        for n in m.root.walk():
            path = n.path()
            protected = not n.policy["w"] or n.policy["ao"]
            if not protected:
                continue
            now = state.get(path)
            require(now is not None, f"{what}: protected {path!r} is gone")
            require(now["dir"] == n.is_dir and now["policy"] == n.policy, f"{what}: {path!r} changed")
            if n.is_dir and not n.policy["w"]:
                kids = {p.rpartition("/")[2] for p in state
                        if p != "/" and (p.rpartition("/")[0] or "/") == path}
                require(kids == set(n.kids), f"{what}: entries of read-only {path!r} changed",
                        kids, set(n.kids))
            if not n.is_dir:
                if n.policy["w"]:
                    require(now["content"].startswith(n.content), f"{what}: append-only "
                            f"{path!r} was rewritten", sut.short(now["content"]))
                else:
                    require(now["content"] == n.content, f"{what}: read-only {path!r} was written")

    def do_redirect(self, vfs, shell, m, op, what):
        p = gen.resolve(op["p"], m)
        if not ops.shell_safe(p):
            return None
        res = sut.sh(shell, f"echo {q(op['data'])} {'>>' if op['append'] else '>'} {q(p)}")
        try:
            m.write(p, op["data"] + "\n", append=op["append"])
            want = True
        except Refused:
            want = False
        require((res.exit_code == 0) == want, f"{what}: redirection to {p!r}", repr(res))
        return "ok" if want else "refused"

    def do_py(self, vfs, shell, m, op, what):
        p = gen.resolve(op["p"], m)
        call = {"write": f"vfs.write_file({p!r}, {op['data']!r})",
                "append": f"vfs.append_file({p!r}, {op['data']!r})",
                "rm": f"vfs.remove({p!r})"}[op["what"]]
        from sandfs import PythonExecutor
        ok, detail = sut.attempt(PythonExecutor(vfs).run, call)
        try:
            if op["what"] == "rm":
                m.remove(p)
            else:
                m.write(p, op["data"], append=op["what"] == "append")
            want = True
        except Refused:
            want = False
        require(ok == want, f"{what}: python {call}", repr(detail))
        return "ok" if want else "refused"

    def do_multi(self, vfs, shell, m, op, what):
        ps = [gen.resolve(p, m) for p in op["ps"]]
        if not ops.shell_safe(*ps):
            return None
        sut.sh(shell, op["cmd"] + " " + " ".join(q(p) for p in ps))
        return "loose"

    def do_glob(self, vfs, shell, m, op, what):
        p = gen.resolve(op["p"], m)
        node = m.find(p)
        if not node.is_dir or not ops.shell_safe(p):
            return None
        sut.sh(shell, f"{op['cmd']} {q(p if p != '/' else '')}/*")
        return "loose"

    def do_host(self, vfs, shell, m, op, what):
        p = gen.resolve(op["p"], m)
        if not ops.shell_safe(p) or any(c in p for c in " '\"\\#~=") or not p.isascii():
            return None
        rel = "./" + p.lstrip("/")
        word = q(op["data"])
        script = {"write": f"printf %s {word} > {rel}", "append": f"printf %s {word} >> {rel}",
                  "rm": f"rm -rf {rel}" if p != "/" else "true"}[op["what"]]
        ops.home(vfs, m)
        sut.sh(shell, f"sh -c {q(script)}")
        return "loose"


def free_outcome(m, op):
    """What the operation would do if nothing were protected."""
    twin = Model()
    twin.adopt(m.state(), m.pwd())
    for n in twin.root.walk():
        n.policy = policy(r=n.policy["r"])
    p = gen.resolve(op["p"], twin)
    to = gen.resolve(op["to"], twin) if "to" in op else None
    try:
        ops.model_call(twin, op, p, to)
        return "ok"
    except Refused:
        return "refused"


CHECK = C05()

"""C02: spellings of a path are interchangeable (metamorphic twin, plus lexical oracle)."""
import pathlib
import re

from pbt import gen, lazy, ops, sut
from pbt.core import Check, require
from pbt.model import Model, collapse
from pbt.spell import spelling
from pbt.sut import attempt, q
from sandfs import MemoryStorageAdapter, ProvidedNode, SearchQuery

EXTRA = [(2, "policy"), (1, "mountfile"), (1, "mountdir"), (1, "store"), (1, "sync"), (1, "hook"),
         (2, "redirect"), (1, "view")]
QUERIES = ["read", "ls", "exists", "version", "policy", "tree", "walk", "files", "search", "glob",
           "sh cat", "sh ls", "sh ls -l", "sh head -n 2", "sh tail -n 2", "sh stat", "sh find",
           "sh tree", "sh wc", "sh grep -n e", "sh grep -r -n e", "sh search e", "sh in", "export", "sh view", "sh view"]
DATE = re.compile(r"\d{4}-\d\d-\d\d")


class C02(Check):
    id = "C02"
    rule = """twin sandboxes, one addressed by canonical absolute paths, the other by generated
    spellings (relative, '.', '..', '//', trailing slash, superfluous '..') of the same
    locations from the same current directory, through every path-taking API call and
    command; results, errors, trees and events must agree, and pwd must be the lexical
    collapse; non-trivial: at least 3 accepted operations whose spelling differs from the
    canonical path, from a current directory other than '/'"""
    quick, thorough = 14000, 250000
    max_ops, op_bytes, cfg_bytes = 24, 50, 96

    def decode(self, cfg, raw):
        pool = gen.names(cfg, ("tiny", "tiny", "plain", "prefixy", "odd", "casey"))
        table = gen.swarm(cfg, [(4, "cd")] + gen.TREE_OPS[:-1] + EXTRA + [(8, "query")])
        out = []
        for b in raw:
            kind = b.weighted(table)
            if kind in ("query", "mountfile", "mountdir", "store", "sync", "hook", "redirect", "view"):
                op = {"op": kind, "p": gen.path_ref(b, pool)}
                if kind == "query":
                    op["q"] = b.pick(QUERIES)
                if kind == "redirect":
                    op["append"] = b.chance(50)
            else:
                op = gen.tree_op(b, [(1, kind)], pool, shell=True)
            op["s1"] = [b.u8() for _ in range(14)]
            op["s2"] = [b.u8() for _ in range(10)]
            op["obj"] = b.chance(25)  # a path object instead of a string
            out.append(op)
        return {"setup": gen.setup_tree(cfg, pool), "lazy": lazy.choose(cfg), "cwd": {"dir": cfg.u8()}, "ops": out}

    def run(self, case, env):
        A, B = sut.VirtualFileSystem(), sut.VirtualFileSystem()
        shells = sut.SandboxShell(A), sut.SandboxShell(B)
        events = [], []
        m = Model()
        ops.install(A, m, case["setup"], case["lazy"])
        ops.install(B, Model(), case["setup"], case["lazy"])
        dirs = [n.path() for n in m.root.walk() if n.is_dir]
        start = dirs[case["cwd"]["dir"] % len(dirs)]
        for side in (A, B, m):
            side.cd(start)
        hits = 0
        for i, op in enumerate(case["ops"]):
            cwd = m.pwd()
            p = gen.resolve(op["p"], m)
            to = gen.resolve(op["to"], m) if "to" in op else None
            sp = spelling(p, cwd, op["s1"])
            sto = spelling(to, cwd, op["s2"]) if to else None
            require(collapse(sp, cwd) == p, f"harness: {sp!r} from {cwd!r} is not {p!r}")
            if not ops.shell_safe(p, sp, to, sto, op.get("data")):
                if op["op"] == "redirect" or op.get("q", "").startswith("sh "):
                    continue
                op = dict(op, via="api")
            if op.get("q") == "sh view" and "?" in p + sp:
                continue
            if op["obj"] and op.get("via") != "sh" and op["op"] != "redirect" \
                    and not op.get("q", "").startswith(("sh ", "glob")):
                sp, sto = pathlib.PurePosixPath(sp), pathlib.PurePosixPath(sto) if sto else None
            got = [self.act(v, s, e, op, x, y, env) for v, s, e, x, y in
                   ((A, shells[0], events[0], p, to), (B, shells[1], events[1], sp, sto))]
            require(got[0] == got[1],
                    f"step {i}: {op['op']} {op.get('q', '')} on {p!r} and on {sp!r} (to {to!r}/"
                    f"{sto!r}) from {cwd!r} differ", sut.short(got[0]), sut.short(got[1]))
            state = sut.capture(A)
            sut.compare(sut.capture(B), state, f"step {i}: {op['op']} {sp!r} vs {p!r} from {cwd!r}")
            require(A.pwd() == B.pwd(), f"pwd differs after cd {sp!r}: {A.pwd()!r} {B.pwd()!r}")
            if op["op"] == "cd" and got[0][0]:
                require(B.pwd() == p, f"cd {sp!r} from {cwd!r} went to {B.pwd()!r}, not {p!r}")
                env.label("cd")
            require(events[0] == events[1], f"step {i}: events differ", events[0], events[1])
            if got[0][0] and str(sp) != p and cwd != "/":
                hits += 1
            if not A.is_dir(A.pwd()):
                for v in (A, B):  # a policy may have closed the root
                    v.set_policy("/", sut.NodePolicy())
                    v.cd("/")
                state = sut.capture(A)
            m.adopt(state, A.pwd())
        return hits >= 3

    def act(self, vfs, shell, events, op, p, to, env):
        kind = op["op"]
        if kind == "query":
            return self.query(vfs, shell, op["q"], p, env)
        if kind == "redirect":
            res = sut.sh(shell, f"echo redirected {'>>' if op['append'] else '>'} {q(p)}")
            return (res.exit_code == 0, res.stdout)
        if kind == "mountfile":
            return attempt(vfs.mount_file, p, lambda ctx: f"provided at {ctx.path}")[0], None
        if kind == "mountdir":
            make = lambda ctx: {"given": ProvidedNode.file(content=f"given at {ctx.path}\n")}
            return attempt(vfs.mount_directory, p, make)[0], None
        if kind == "store":
            adapter = MemoryStorageAdapter({"s1": "stored e\n", "sub/s2": "two\n"})
            return attempt(vfs.mount_storage, p, adapter)[0], None
        if kind == "view":
            return attempt(vfs.enable_search_view, p)[0], None
        if kind == "sync":
            return attempt(vfs.sync_storage, p)[0], None
        if kind == "hook":
            vfs.register_path_hook(p, lambda ev: events.append((ev.path, ev.event)))
            vfs.register_write_hook(p, lambda ev: events.append((ev.path, ev.content)))
            return True, None
        if op.get("via") == "sh":
            res = sut.sh(shell, ops.shell_line(op, p, to))
            return res.exit_code == 0, None
        return ops.api_call(vfs, op, p, to)[0], None

    def query(self, vfs, shell, what, p, env):
        env.label(what)
        if what.startswith("sh "):
            cmd = what[3:]
            line = f"cat < {q(p)}" if cmd == "in" else f"{cmd} {q(p)}"
            if cmd == "view":
                line = "find " + q(f"{p}?q=e")
            res = sut.sh(shell, line)
            out = "\n".join(x for x in res.stdout.splitlines() if not DATE.search(x))
            if cmd == "wc":  # echoes the argument
                out = out.replace(p, "")
            return res.exit_code == 0, out
        if what == "read":
            ok, v = attempt(vfs.read_file, p)
        elif what == "ls":
            ok, v = attempt(vfs.ls, p)
            v = [(e.name, str(e.path), e.is_dir) for e in v] if ok else None
        elif what == "exists":
            ok, v = True, (vfs.exists(p), vfs.is_dir(p), vfs.is_file(p))
        elif what == "version":
            ok, v = attempt(vfs.get_version, p)
        elif what == "policy":
            ok, v = attempt(vfs.get_policy, p)
        elif what == "tree":
            ok, v = attempt(vfs.tree, p)
        elif what == "walk":
            ok, v = attempt(lambda: [str(x) for x, _ in vfs.walk(p)])
        elif what == "files":
            ok, v = attempt(lambda: [str(x) for x, _ in vfs.iter_files(p)])
        elif what == "search":
            ok, v = attempt(vfs.search, SearchQuery("e", path_prefix=pathlib.PurePosixPath(p)))
        elif what == "glob":
            if any(c in p for c in "*?[]") or not vfs.is_dir(p):
                return False, None
            if "/" not in p:
                p = "./" + p
            ok, v = attempt(vfs.glob, p.rstrip("/") + "/*")
        else:
            import os
            d = env.scratch()
            ok, v = attempt(vfs.export_to_path, pathlib.Path(d) / "t", source=p)
            v = sorted(os.path.relpath(os.path.join(r, f), d)
                       for r, ds, fs in os.walk(d) for f in fs + ds) if ok else None
        return ok, (v if ok else None)


CHECK = C02()

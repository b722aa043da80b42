"""C06: contents of unreadable files never come out (taint tokens), readable ones do."""
import pathlib
import re

from pbt import gen, lazy, ops, sut
from pbt.core import Check, require
from pbt.model import Model, Refused, policy
from pbt.sut import attempt, q
from sandfs import SearchQuery

READS = ["api read", "api search", "api search-re", "api ls", "api tree", "api cd", "cat", "head",
         "tail", "head -n 1", "tail -c 9", "wc", "grep", "grep -n", "grep -r", "grep -r -n -i",
         "grep -e", "rg", "rg -i", "search", "search -e", "cat <", "grep <", "ls", "ls -l", "stat",
         "find", "tree", "view-ls", "view-cat", "view-find", "view-grep", "cat-two", "pipe", "py",
         "copy-cat", "append-out", "echo-glob"]
TOKEN = re.compile(r"TOK\d{4}")


class C06(Check):
    id = "C06"
    rule = """every file carries unique tokens; random histories of writes, copies, moves and
    read-policy changes (static, provider-backed and stored files, index on or off, search
    view on) interleaved with every reading, searching and copying call and command; no
    output may contain a token that only unreadable files hold, direct reads of them fail,
    readable files still come out; non-trivial: at least 2 readings that name, contain or
    search over an unreadable file and one that returns a readable file's token"""
    quick, thorough = 16000, 260000
    max_ops, op_bytes, cfg_bytes = 36, 18, 96

    def decode(self, cfg, raw):
        pool = gen.names(cfg, ("tiny", "tiny", "plain", "prefixy", "casey"))
        table = gen.swarm(cfg, [(20, "look"), (9, "policy")] + gen.TREE_OPS + [(2, "provide"),
                                                                               (1, "index")])
        setup = gen.setup_tree(cfg, pool, n=5, data=lambda b: "s")
        n = 0
        for item in setup:
            if "data" in item:
                item["data"] = f"line one\nTOK{n:04d} secret\nTok end"
                n += 1
        out = []
        for b in raw:
            kind = b.weighted(table)
            n += 1
            if kind == "look":
                op = {"op": kind, "how": b.pick(READS), "p": {"node": b.u8()}, "tok": b.u8()}
                if b.chance(40):
                    op["p"] = {"file": b.u8()}
            elif kind == "policy":
                op = {"op": kind, "p": {"file": b.u8()} if b.chance(70) else {"node": b.u8()},
                      "policy": b.weighted([(6, policy(r=False)), (3, policy()),
                                            (1, policy(r=False, w=False)), (1, policy(w=False)),
                                            (2, policy(r=False, ao=True)), (1, policy(ao=True))])}
            elif kind in ("provide", "index"):
                op = {"op": kind, "p": gen.path_ref(b, pool), "data": f"TOK{n:04d} provided\n"}
            else:
                op = gen.tree_op(b, [(1, kind)], pool, shell=True)
                if "data" in op:
                    op["data"] = (f"TOK{n:04d} text" if op["via"] == "sh" else
                                  b.pick([f"TOK{n:04d}\n", f"a\nTOK{n:04d} b\nc", f"TOK{n:04d}" * 50]))
            out.append(op)
        bits = lazy.choose(cfg)
        closed = [cfg.u8() for _ in range(1 + cfg.below(3))]
        dirs = [cfg.u8() for _ in range(cfg.below(3))]
        return {"setup": setup, "lazy": bits, "closed": closed, "closed_dirs": dirs, "index": cfg.chance(50), "view": cfg.chance(60), "ops": out}

    def run(self, case, env):
        vfs = sut.VirtualFileSystem()
        shell = sut.SandboxShell(vfs)
        m = Model()
        ops.install(vfs, m, case["setup"], case["lazy"])
        if case["index"]:
            vfs.enable_full_text_index()
        if case["view"]:
            vfs.enable_search_view()
            m.mkdir("/@search")
        for k in case["closed"]:
            files = sorted(m.files())
            if files:
                shut = policy(r=False, ao=k % 5 == 4)
                vfs.set_policy(files[k % len(files)], sut.pol(shut))
                m.set_policy(files[k % len(files)], shut)
        for k in case["closed_dirs"]:
            dirs = [n.path() for n in m.root.walk() if n.is_dir][1:]
            if dirs:
                vfs.set_policy(dirs[k % len(dirs)], sut.pol(policy(r=False)))
                m.set_policy(dirs[k % len(dirs)], policy(r=False))
        guarded = shown = 0
        for i, op in enumerate(case["ops"]):
            what = f"step {i} {op}"
            kind = op["op"]
            if kind == "index":
                vfs.enable_full_text_index()
                continue
            if kind == "provide":
                p = gen.resolve(op["p"], m)
                if p.startswith("/@search"):
                    continue
                try:
                    m.write(p, op["data"])
                except Refused:
                    continue
                m.find(p).version = 0
                vfs.mount_file(p, lambda ctx, d=op["data"]: d)
                m.adopt(sut.capture(vfs), m.pwd())
                continue
            p = gen.resolve(op["p"], m)
            if p.startswith("/@search"):
                continue
            if kind != "look":
                if "to" in op and gen.resolve(op["to"], m).startswith("/@search"):
                    continue
                if p == "/" and kind in ("cp", "policy"):
                    continue
                if kind == "policy" and m.find(p) is not None and op["policy"]["w"] is False \
                        and m.find(p).is_dir:
                    continue
                if ops.play_both(vfs, shell, m, op) == "partial":
                    m.adopt(sut.capture(vfs), m.pwd())
                state = sut.capture(vfs)
                for path in [x for x in state if x.startswith("/@search/")]:
                    del state[path]
                sut.compare(state, m.state(), what, versions=False)
                sut.adopt_versions(m, state)
                ops.settle(vfs, m)
                continue
            if m.find(p) is None:
                continue
            closed, open_ = set(), set()
            for n in m.files().values():
                (open_ if n.policy["r"] else closed).update(TOKEN.findall(n.content))
            secret = closed - open_
            tokens = sorted(closed | open_) or ["TOK0000"]
            tok = tokens[op["tok"] % len(tokens)]
            text, expect, hit = self.look(vfs, shell, m, op["how"], p, tok, env, what)
            leaked = set(TOKEN.findall(text)) & secret
            named = {tok} if op["how"] in ("grep <", "pipe") else set()
            require(not leaked - named, f"{what} on {p!r} returned {sorted(leaked)} of unreadable files",
                    sut.short(text))
            if expect is not None:
                missing = expect - set(TOKEN.findall(text))
                require(not missing, f"{what} on {p!r} did not return {sorted(missing)} of "
                        "readable files", sut.short(text))
                if expect:
                    shown += 1
            if hit and secret:
                guarded += 1
                env.label(op["how"])
        return guarded >= 2 and shown >= 1

    def look(self, vfs, shell, m, how, p, tok, env, what):
        """-> (everything returned, tokens that must be in it or None, touched a closed file)"""
        node = m.find(p)
        closed_file = not node.is_dir and not node.policy["r"]
        below = [n for n in node.walk() if not n.is_dir]
        hit = any(not n.policy["r"] for n in below)
        readable = {t for n in below if n.policy["r"] and (node is n or node.policy["r"])
                    for t in TOKEN.findall(n.content)}
        pp = pathlib.PurePosixPath(p)

        def direct(ok, text):
            want = not node.is_dir and node.policy["r"]
            require(ok == want, f"{what}: reading {p!r} {'worked' if ok else 'failed'}",
                    sut.short(text))
            return text

        if how == "api read":
            ok, v = attempt(vfs.read_file, p)
            direct(ok, v)
            return (v if ok else str(v)), readable if ok else None, closed_file
        if how.startswith("api search"):
            query = SearchQuery(tok[:5] if how.endswith("-re") else "TOK",
                                regex=how.endswith("-re"), path_prefix=pp)
            res = vfs.search(query)
            want = {t for t in readable if t.startswith(tok[:5])} if how.endswith("-re") else readable
            return repr(res), want, hit
        if how in ("api ls", "api tree", "api cd"):
            fn = {"api ls": vfs.ls, "api tree": vfs.tree, "api cd": vfs.cd}[how]
            ok, v = attempt(fn, p)
            require(ok == (node.is_dir and node.policy["r"]),
                    f"{what}: {how} {p!r} {'worked' if ok else 'failed'}", repr(v))
            if how == "api cd" and ok:
                m.cd(p)
            return repr(v), None, node.is_dir and not node.policy["r"]
        if not ops.shell_safe(p):
            return "", None, False
        w = q(p)
        if how in ("cat", "head", "tail", "head -n 1", "tail -c 9", "wc", "cat <"):
            line = f"{how} {w}"
            res = sut.sh(shell, line)
            direct(res.exit_code == 0, res.stdout + res.stderr)
            return (res.stdout + res.stderr,
                    readable if how in ("cat", "cat <") and not node.is_dir else None, closed_file)
        if how == "grep <":
            res = sut.sh(shell, f"grep {tok} < {w}")
            direct(res.exit_code == 0, res.stdout + res.stderr)
            return res.stdout + res.stderr.replace(tok, ""), None, closed_file
        if how.startswith("grep") or how.startswith("rg") or how.startswith("search"):
            word = "'TOK.'" if "-e" in how else "TOK"
            res = sut.sh(shell, f"{how} {word} {w}")
            recursive = "-r" in how or not how.startswith("grep")
            want = readable if recursive and node.policy["r"] else None
            if node.is_dir and not node.policy["r"]:
                want = None
            return res.stdout + res.stderr, want, hit
        if how in ("ls", "ls -l", "stat", "find", "tree"):
            res = sut.sh(shell, f"{how} {w}")
            if how in ("ls", "tree") and node.is_dir:
                require((res.exit_code == 0) == node.policy["r"], f"{what}: {how} {p!r}", repr(res))
            return res.stdout + res.stderr, None, hit
        if how.startswith("view"):
            base = "/@search?q=TOK"
            line = {"view-ls": f"ls {base}", "view-cat": f"cat {base}{p}",
                    "view-find": f"find {base}", "view-grep": f"grep -r TOK {base}"}[how]
            if p == "/":
                return "", None, False
            res = sut.sh(shell, line)
            # results are copies made while the file was readable: clear them again
            sut.sh(shell, "ls /@search?q=nothing-has-this")
            return res.stdout + res.stderr, None, hit
        if how == "cat-two":
            files = sorted(m.files())
            other = files[0] if files else p
            if not ops.shell_safe(other):
                return "", None, False
            res = sut.sh(shell, f"cat {q(other)} {w}")
            return res.stdout + res.stderr, None, hit
        if how == "pipe":
            res = sut.sh(shell, f"cat {w} | grep {tok} | cat")
            return res.stdout + res.stderr.replace(tok, ""), None, closed_file
        if how == "py":
            from sandfs import PythonExecutor
            ok, v = attempt(PythonExecutor(vfs).run, f"print(vfs.read_file({p!r}))")
            direct(ok, v)
            return (v.stdout if ok else str(v)), readable if ok else None, closed_file
        if how == "copy-cat":
            # copying an unreadable file must not yield a readable copy
            if node.is_dir or m.find("/cc") is not None or p.startswith("/cc"):
                return "", None, False
            if not m.root.policy["w"] or m.root.policy["ao"]:
                return "", None, False
            r1 = sut.sh(shell, f"cp {w} /cc")
            r2 = sut.sh(shell, "cat /cc")
            sut.sh(shell, "rm /cc")
            if vfs.exists("/cc"):
                vfs.set_policy("/cc", sut.pol(policy()))
                vfs.remove("/cc")
            return r1.stdout + r1.stderr + r2.stdout + r2.stderr, readable, closed_file
        if how == "append-out":
            res = sut.sh(shell, f"cat {w} > /zz-out")
            text = vfs.read_file("/zz-out") if vfs.exists("/zz-out") else ""
            if vfs.exists("/zz-out"):
                vfs.remove("/zz-out")
            return text + res.stderr, None, closed_file
        if how == "echo-glob":
            res = sut.sh(shell, f"cat {q(p.rpartition('/')[0])}/*")
            return res.stdout + res.stderr, None, hit
        raise AssertionError(how)


CHECK = C06()

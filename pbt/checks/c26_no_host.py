"""C26: in-memory operation never touches the host."""
import os
from pathlib import PurePosixPath

from pbt import audit, gen, ops, spell, sut
from pbt.checks import c16_total as words
from pbt.core import Check, require
from pbt.model import Model, Refused, policy
from pbt.sut import attempt, q
from sandfs import MemoryStorageAdapter, ProvidedNode
from sandfs.search import SearchQuery

TOUCHING = ("open", "os.", "shutil.", "tempfile.", "pathlib.", "glob.", "mmap.", "fcntl.", "sqlite3.",
            "ftplib.", "urllib.", "ctypes.dlopen", "syslog.", "pty.", "imaplib.", "smtplib.") \
    + audit.PROCESS + audit.NETWORK
HARMLESS = ("os.putenv", "os.unsetenv", "os.getenv")
POOL = ["a", "b", "c.txt", "d"]
LINES = ["ls {p}", "ls -l {p}", "cat {p}", "tree {p}", "find {p}", "find {p} -name '*'", "grep -r decoy {p}",
         "grep decoy {p}", "rg decoy {p}", "search decoy {p}", "wc {p}", "head {p}", "tail {p}", "stat {p}",
         "echo {p}/*", "ls {p}/*", "cat {p}/*", "cd {p}", "cat < {p}", "echo x > {p}", "echo x >> {p}",
         "write {p} y", "append {p} z", "rm {p}", "rm -r {p}", "rm -r {p}/*", "mkdir -p {p}", "touch {p}",
         "cp {p} {r}", "cp -r {p} {r}", "mv {p} {r}", "pwd", "help", "echo ~ $HOME $PATH", "printf %s {p}",
         "python 'print(vfs.exists(\"/\"))'", "cat {p} | grep x", "ls '/@search?q=decoy'",
         "cat '/@search?q=decoy{p}'", "nosuch {p}", "echo $(ls {p})", "X={p}", "ls $X"]


class C26(Check):
    id = "C26"
    rule = """histories of API calls and built-in commands (tree operations, arbitrary command lines,
    snapshots, index, search view, in-memory mounts, providers, views, snippets) on paths that
    also exist on the host (a scratch directory of decoys, the process's current directory and
    its parents, system files), with every audited file, process and network operation of the
    process and every stat-like call recorded, the decoys compared afterwards and tree
    operations checked against the reference tree; non-trivial: at least 5 operations on a path
    that exists on the host"""
    quick, thorough = 16000, 250000
    max_ops, op_bytes, cfg_bytes, min_ops = 20, 20, 40, 3
    assumptions = ["host access is observed through the interpreter's audit events and the "
                   "functions of the os module"]

    def decode(self, cfg, raw):
        out = []
        for b in raw:
            kind = b.weighted([(6, "tree"), (6, "line"), (3, "odd"), (1, "snap"), (1, "restore"), (1, "index"),
                               (2, "api"), (1, "mount"), (1, "prov"), (1, "policy")])
            op = {"k": kind, "n": b.u8(), "v": b.u8(), "at": b.u8(), "to": b.u8()}
            if kind == "tree":
                op["op"] = gen.tree_op(b, gen.TREE_OPS, POOL, shell=True)
                op["lit"] = b.chance(55)
            elif kind == "line":
                op["line"] = b.pick(LINES)
            elif kind == "odd":
                text = ""
                for _ in range(1 + b.below(6)):
                    text += b.pick([words.NAMES, words.PATHS, words.FLAGS, words.BITS, ["{p}"]][b.below(5)])
                    text += b.pick(["", " ", " "])
                op["line"] = text
            out.append(op)
        return {"ops": out, "setup": cfg.chance(50), "limit": cfg.pick([None, None, 40]),
                "view": cfg.chance(25), "chdir": cfg.chance(60)}

    def run(self, case, env):
        scratch = env.scratch()
        host = os.path.join(scratch, "host")
        os.makedirs(os.path.join(host, "d"))
        for p in ("a", "b", "d/a", "c.txt"):
            with open(os.path.join(host, p), "w") as fh:
                fh.write("decoy " + p)
        os.symlink(os.path.join(host, "a"), os.path.join(host, "link"))
        pool = [host + "/a", host + "/b", host + "/d", host + "/d/a", host, host + "/new", scratch, "a", "b", "d",
                "d/a", "./a", "link", host + "/link", "/etc/passwd", "/etc", "/tmp", "/proc/self", "/dev/null", "~",
                host + "/d/new", "../host/a", "/root", "c.txt", "~/a", "~root", "~", "$HOME", "%USERPROFILE%", "file:" + host + "/a"]
        here = os.getcwd()
        try:
            if case["chdir"]:
                os.chdir(host)
            return self.history(case, env, host, pool)
        finally:
            os.chdir(here)

    def history(self, case, env, host, pool):
        before = look(host)
        vfs, m = sut.VirtualFileSystem(), Model()
        self.snaps = []
        with audit.Watch() as watch, audit.Stats(watch.events):
            self.shell = sut.SandboxShell(vfs, max_output_bytes=case["limit"],
                                          view=sut.VisibilityView(path_prefixes=["/"]) if case["view"] else None)
            for name in ("host", "bash", "sh"):
                del self.shell.commands[name]
        self.judge(watch, "building a sandbox")
        if case["setup"]:
            for p in (host + "/d/a", host + "/a"):
                vfs.write_file(p, "mine")
                m.write(p, "mine")
        hits = 0
        self.model = m  # None once an operation outside the model's knowledge ran
        for i, op in enumerate(case["ops"]):
            p, r = pool[op["at"] % len(pool)], pool[op["to"] % len(pool)]
            what = f"step {i} {op}"
            with audit.Watch() as watch, audit.Stats(watch.events):
                self.step(vfs, op, p, r, what)
            self.judge(watch, what)
            hits += os.path.lexists(p)
            env.label(op["k"])
        if self.model is not None:
            sut.compare(sut.capture(vfs), self.model.state(), "in the end", versions=False)
        after = look(host)
        require(before == after, "the host's files changed", sorted(
            k for k in set(before) | set(after) if before.get(k) != after.get(k)))
        return hits >= 5

    def step(self, vfs, op, p, r, what):
        kind, m = op["k"], self.model
        if kind == "tree":
            o = dict(op["op"])
            if op["lit"]:
                o["p"] = p
                if "to" in o:
                    o["to"] = r
            if m is not None:
                if isinstance(o["p"], str) and not op["v"] & 4:
                    o["p"] = m.norm(o["p"])
                if isinstance(o.get("to"), str) and not op["v"] & 8:
                    o["to"] = m.norm(o["to"])
                if ops.play_both(vfs, self.shell if o.get("via") == "sh" and op["v"] % 2 else None,
                                 m, o) == "partial":
                    m.adopt(sut.capture(vfs), m.pwd())
                sut.adopt_versions(m, sut.capture(vfs))
                ops.settle(vfs, m)
            else:
                ops.api_call(vfs, o, o["p"] if isinstance(o["p"], str) else p,
                             o.get("to") if isinstance(o.get("to"), str) else r)
        elif kind in ("line", "odd"):
            if m is not None and op["v"] % 2:
                attempt(vfs.enable_search_view)
            self.model = None
            line = op["line"].replace("{p}", q(p)).replace("{r}", q(r))
            sut.sh(self.shell, line)
        elif kind == "snap":
            self.snaps.append(vfs.snapshot())
        elif kind == "restore" and self.snaps:
            self.model = None
            vfs.restore(self.snaps[op["n"] % len(self.snaps)])
        elif kind == "index":
            vfs.enable_full_text_index()
        elif kind == "api":
            calls = [lambda: vfs.exists(p), lambda: vfs.is_dir(p), lambda: vfs.is_file(p), lambda: vfs.ls(p),
                     lambda: vfs.read_file(p), lambda: vfs.tree(p), lambda: list(vfs.walk(p)),
                     lambda: list(vfs.iter_files(p)), lambda: vfs.search(SearchQuery("decoy", path_prefix=PurePosixPath(p))),
                     lambda: vfs.get_version(p), lambda: vfs.pwd()]
            done, got = attempt(calls[op["n"] % len(calls)])
            require("decoy" not in str(got), f"{what}: {sut.short(got)}")
        elif kind == "mount":
            self.model = None
            attempt(vfs.mount_storage, p, MemoryStorageAdapter({"a": "x", "d/e": "y"}))
        elif kind == "prov":
            self.model = None
            attempt(vfs.mount_directory, p, lambda ctx: {"a": ProvidedNode.file(content="x")})
        elif kind == "policy":
            if attempt(vfs.set_policy, p, sut.NodePolicy(writable=False))[0] and m is not None:
                m.find(m.norm(p)).policy = policy(w=False)

    def judge(self, watch, what):
        for event, args in watch.events:
            if event.startswith(HARMLESS):
                continue
            require(not event.startswith(TOUCHING), f"{what}: host access {event} {args}")


def look(root):
    out = {}
    for base, dirs, files in os.walk(root):
        for x in dirs + files:
            p = os.path.join(base, x)
            st = os.lstat(p)
            data = None
            if os.path.isfile(p):
                with open(p, "rb") as fh:
                    data = fh.read()
            out[p] = (st.st_mode, st.st_size, st.st_mtime_ns, data)
    return out


CHECK = C26()

"""C16: executing any command line returns a result and never raises."""
from pbt import gen, sut, views
from pbt.core import Check, Violation, require
from pbt.sut import q
from sandfs import MemoryStorageAdapter
from sandfs.shell import CommandResult

NAMES = ["pwd", "cd", "ls", "cat", "touch", "mkdir", "rm", "cp", "mv", "tree", "write", "append",
         "echo", "printf", "wc", "grep", "rg", "search", "help", "stat", "head", "tail", "find",
         "nosuch", "boom", "nada", "num", "fails", "", "X=1", "-", "noctx"]
PATHS = ["/", "/a", "/a/b", "/d", "/d/f.txt", "/d/sub", "/m/a", "/m", "/bad", "/badd", "/flaky",
         "/nope", "/nope/x", "/a/b/c/d", "..", ".", "./x", "/d/*", "*", "**", "/d/[", "?", "[a-",
         "/@search", "/@search?q=e", "/@search?q=", "/@search?q=e/d/f.txt", "/@search?q=[&regex=1",
         "/@search?q=e&path=/d", "/ro/f", "/ro", "/hid", "~", "a b", "", "//", "/d/", "/a/",
         "-", "--", "\u00fc", "/@search?x"]
FLAGS = ["-n", "-c", "-l", "-r", "-e", "-i", "-name", "-type", "-p", "--text", "--append", "f", "d",
         "x", "0", "1", "-1", "3", "99999999999999999999", "1e3", "--long", "-rf", "--", "-z",
         "[", "(", "*", "a|b", "\\", "%s", "%d", "%s%s", "%", "\\n", "e", "needle", "--recursive"]
BITS = ["|", "<", ">", ">>", "'", '"', "\\", "$", "${", "}", "$A", "${A}", "$?", "&", ";", "&&",
        "#", "=", "A=", "A=b", "\n", "\r", "\t", "\x0b", "\x00", "\x1c", "\x85", "\u2028",
        "\ufdd0", "\ufdd1", "\U0001f600", "\ud800", "(", ")", "`", "!", "||", ">>>", "<<", "\ufeff",
        "|", ">", "'", '"', " ", " ", " "]

# Lines that must fail, whatever the tree looks like (for a shell that may run everything).
FAILING = [
    "nosuch", "nosuch a b", "cat /nope/x", "cat /d", "head -n", "head -n x /d/f.txt", "tail -c",
    "tail -n 1e3 /d/f.txt", "wc /nope/x", "grep -e '[' /d/f.txt", "rg -e '(' /d", "search -e '['",
    "grep", "grep -r", "rg", "search", "search -i", "find /nope/x", "find -type x", "find -foo",
    "find -name", "ls /nope/x", "ls -z", "cd", "cd /nope/x", "cd /d/f.txt", "cd a b", "stat",
    "stat /nope/x", "touch", "touch /d", "touch /d/f.txt/y", "mkdir", "mkdir /d", "mkdir -p /d/f.txt",
    "mkdir -p /d/f.txt/y", "rm", "rm /nope/x", "rm /d", "rm /", "rm -r /", "cp", "cp /d/f.txt",
    "cp /nope/x /d/z", "cp /d /dd", "cp /d/f.txt /d/f.txt/z", "mv", "mv /nope/x /y", "mv /d /d/sub/z",
    "tree /nope/x", "write", "write /d text", "write /d/f.txt/y text", "append", "append /d",
    "append /d text", "append /d/f.txt", "append /newly", "mv /d/f.txt", "mv /d/f.txt /y /z",
    "mv /d/f.txt /d/sub /z", "cp -r /d", "cp /d/f.txt /nope/x/y", "mkdir -p", "rm -r", "tail -n", "head -c",
    "wc -l /nope/x", "echo x > /d", "echo x >> /d", "echo x > /d/f.txt/y", "cat < /nope/x",
    "cat < /d", "cat <", "cat >", "| cat", "cat |", "echo a | | cat", "> /d/n", "echo 'open",
    'echo "open', "echo open\\", "cat /badd/x", "ls /badd", "cat /bad", "grep x /bad", "head /bad",
    "cat < /bad", "boom", "fails", "fails a", "fails a b", "echo x | fails a", "echo x > '/@search?q=e/d/f.txt'", "touch '/@search?q=e'",
    "rm '/@search?q=e'", "write /ro/f x", "rm /ro/f", "touch /ro/g", "mv /ro/f /d/z", "A=1 | cat",
    "write '/@search?q=e' x", "mkdir '/@search?q=e'", "cp '/@search?q=e' /z",
    "mv '/@search?q=e' /z", "cat '/@search?q=[&regex=1/x'", "stat /bad",
]
WORKING = ["echo one", "pwd", "ls /d", "cat /d/f.txt", "nada", "num", "echo a | cat", "tree /d",
           "find /d", "grep needle /d/f.txt", "A=1", "A=1 echo x", "wc -l /d/f.txt"]
HOST_FAIL = ["host", "host -C", "host -C /nope true", "host nosuchprogram", "host false",
             "sh -c 'exit 3'", "bash -c 'exit 300'", "host sh -c 'kill -9 $$'", "host -p /d/f.txt true",
             "host cat nosuchfile", "python 1/0", "python -c", "python", "python '(' ",
             "python open", "python 'import os'", "python 'def f(): return f()\nf()'"]
HOST_OK = ["host true", "host printf '\\377'", "sh -c 'cat /d/f.txt'", "bash -c 'echo $A'",
           "host -C /d ls", "python 'print(1)'", "python 'print(vfs.ls(\"/\"))'"]


class Broken(Exception):
    def __str__(self):
        return "broken exception"


def boom(args, ctx):
    raise [ValueError("boom"), KeyError("k"), OSError(5, "io"), Broken(), RecursionError("deep"),
           AssertionError("no"), StopIteration("stop"), UnicodeError("u")][len(args) % 8]


def fails(args, ctx):
    return CommandResult(stdout="partial\n" * len(args), stderr="no", exit_code=[7, 1, -9][len(args) % 3])


def failing(ctx):
    raise RuntimeError("provider down")


class C16(Check):
    id = "C16"
    rule = """command lines from four generators (concatenated fragments of commands, paths,
    flags, operators, quotes and exotic characters; shaped commands with odd arguments;
    listed failing and working lines combined into pipelines and scripts that would leave
    marker files after the failure; truncated or spliced valid lines) in shells with random
    views, allow-lists, output limits and variables over trees with failing providers,
    mounts, read-only and unreadable nodes, a search view and a removed current directory;
    non-trivial: at least 3 lines failed and at least 3 succeeded"""
    quick, thorough = 16000, 250000
    max_ops, op_bytes, cfg_bytes = 24, 40, 40
    assumptions = ["lines do not ask for unbounded work (catastrophic regular expressions, "
                   "huge printf widths, endless python or host programs)",
                   "exceptions raised by custom commands and providers carry a message"]

    def decode(self, cfg, raw):
        setup = gen.setup_tree(cfg, gen.POOLS[cfg.pick(["tiny", "plain", "odd", "wild"])], n=4,
                               big=False)
        view = views.decode_view(cfg, ["/d", "/a", "/", "/m", "/nope"]) if cfg.chance(25) else None
        allow = sorted({cfg.pick(NAMES) for _ in range(cfg.below(12))}) if cfg.chance(15) else None
        limit = cfg.pick([0, 1, 10, 60, 300]) if cfg.chance(20) else None
        hostly = cfg.chance(4)
        out = []
        for b in raw:
            kind = b.weighted([(5, "soup"), (4, "shape"), (5, "script"), (3, "splice"), (2, "breakcwd")]
                              + ([(4, "host")] if hostly else []))
            if kind == "soup":
                text = ""
                for _ in range(1 + b.below(12)):
                    text += b.pick([NAMES, PATHS, FLAGS, BITS, BITS][b.below(5)])
                    text += b.pick(["", " ", " "])
                out.append({"k": kind, "line": text})
            elif kind == "shape":
                words = [b.pick(NAMES)]
                for _ in range(b.below(5)):
                    w = b.pick(PATHS if b.chance(60) else FLAGS)
                    words.append(q(w) if b.chance(70) else w)
                if b.chance(25):
                    words.append(b.pick(["|", ">", ">>", "<"]) + " " + b.pick(PATHS + NAMES))
                out.append({"k": kind, "line": " ".join(words)})
            elif kind == "script":
                out.append({"k": kind, "before": [b.pick(WORKING) for _ in range(b.below(3))],
                            "fail": b.pick(FAILING), "join": b.below(6), "mark": b.pick(
                                ["write {} x", "touch {}", "mkdir {}", "echo x > {}", "echo x >> {}",
                                 "cp /d/f.txt {}", "cat /d/f.txt > {}"])})
            elif kind == "splice":
                line = b.pick(FAILING + WORKING)
                other = b.pick(FAILING + WORKING)
                i, j = b.below(40), b.below(40)
                out.append({"k": kind, "line": line[:i] + b.pick(BITS + [""]) + other[j:]})
            elif kind == "host":
                out.append({"k": kind, "line": b.pick(HOST_FAIL + HOST_OK)})
            else:
                out.append({"k": kind, "again": b.chance(70), "line": b.pick(WORKING + FAILING)})
        return {"setup": setup, "view": view, "allow": allow, "limit": limit, "lines": out,
                "env": cfg.chance(50), "index": cfg.chance(20), "host": hostly}

    def build(self, case):
        vfs = sut.VirtualFileSystem()
        for item in case["setup"]:
            if "data" in item:
                sut.attempt(vfs.write_file, item["p"], item["data"])
            else:
                sut.attempt(vfs.mkdir, item["p"], parents=True, exist_ok=True)
        vfs.mount_storage("/m", MemoryStorageAdapter({"a": "stored\n"}))
        self.repair(vfs, case)
        sut.attempt(vfs.set_policy, "/ro", sut.NodePolicy(writable=False))
        sut.attempt(vfs.set_policy, "/hid", sut.NodePolicy(readable=False))
        vfs.enable_search_view()
        if case["index"]:
            vfs.enable_full_text_index()
        return vfs

    def repair(self, vfs, case):
        """Put back the fixed part of the tree that earlier lines may have changed."""
        vfs.cd("/")
        for d in ("/d", "/ro"):
            if vfs.is_file(d):
                vfs.remove(d)
        if not vfs.exists("/d/sub"):
            if vfs.is_file("/d/sub"):
                vfs.remove("/d/sub")
            vfs.mkdir("/d/sub", parents=True, exist_ok=True)
        if vfs.is_dir("/d/f.txt"):
            vfs.remove("/d/f.txt", recursive=True)
        vfs.write_file("/d/f.txt", "a needle\nthe end\n")
        if not vfs.exists("/ro"):
            vfs.mkdir("/ro")
            vfs.write_file("/ro/f", "kept\n")
            vfs.set_policy("/ro/f", sut.NodePolicy(writable=False))
            vfs.set_policy("/ro", sut.NodePolicy(writable=False))
        if not case["host"]:
            if vfs.exists("/bad") and sut.attempt(vfs.read_file, "/bad")[0] or vfs.is_dir("/bad"):
                vfs.remove("/bad", recursive=True)
            if not vfs.exists("/bad"):
                vfs.mount_file("/bad", failing)
            if vfs.exists("/badd") and sut.attempt(vfs.ls, "/badd")[0] or vfs.is_file("/badd"):
                vfs.remove("/badd", recursive=True)
            if not vfs.exists("/badd"):
                vfs.mount_directory("/badd", failing)
        if not vfs.exists("/hid"):
            vfs.write_file("/hid", "hidden")
        for p in ("/nope", "/dd", "/y", "/z"):
            if vfs.exists(p):
                vfs.remove(p, recursive=True)

    def shell(self, vfs, case, plain=False):
        if plain:
            sh = sut.SandboxShell(vfs)
        else:
            sh = sut.SandboxShell(
                vfs, view=views.make_view(case["view"]) if case["view"] else None,
                allowed_commands=case["allow"], max_output_bytes=case["limit"],
                env={"A": "val", "B": "/d"} if case["env"] else None)
        sh.register_command("boom", boom)
        sh.register_command("fails", fails)
        sh.register_command("nada", lambda args, ctx: None)
        sh.register_command("num", lambda args, ctx: 42)
        sh.register_command("noctx", lambda args: "text")
        if not case["host"] or not plain:
            for name in ("host", "bash", "sh", "python", "python3"):
                del sh.commands[name]
        return sh

    def run(self, case, env):
        vfs = self.build(case)
        shell, plain = self.shell(vfs, case), self.shell(vfs, case, plain=True)
        good = bad = 0
        for i, op in enumerate(case["lines"]):
            kind = op["k"]
            if kind == "breakcwd":
                vfs.mkdir("/gone/here", parents=True, exist_ok=True)
                vfs.cd("/gone/here")
                vfs.remove("/gone", recursive=True)
                if op["again"]:
                    self.exec(shell, op["line"])
                    res = self.exec(plain, "cd /")
                    require(res.exit_code == 0, "cannot leave a removed current directory",
                            repr(res))
                self.repair(vfs, case)
                continue
            if kind == "script":
                self.script(vfs, shell, plain, op, i)
                bad += 1
            elif kind == "host":
                for sh in (plain,):
                    res = self.exec(sh, op["line"])
                    require((res.exit_code != 0) == (op["line"] in HOST_FAIL),
                            f"{op['line']!r} gave {res!r}")
                    env.label("host")
            else:
                res = self.exec(shell, op["line"])
                if res.exit_code:
                    bad += 1
                    require(res.stderr.strip(), f"{op['line']!r} failed without a message",
                            repr(res))
                else:
                    good += 1
            env.label(kind)
            self.usable(vfs, shell, plain, case, op)
            sut.attempt(vfs.set_policy, "/", sut.NodePolicy())
            self.repair(vfs, case)
        return good >= 3 and bad >= 3

    def exec(self, shell, line):
        try:
            res = shell.exec(line)
        except BaseException as exc:
            if isinstance(exc, (KeyboardInterrupt, MemoryError)):
                raise
            raise Violation(f"exec({line!r}) raised {type(exc).__name__}: {exc}") from exc
        require(isinstance(res, CommandResult) and isinstance(res.stdout, str)
                and isinstance(res.stderr, str) and isinstance(res.exit_code, int),
                f"exec({line!r}) returned {res!r}")
        return res

    def script(self, vfs, shell, plain, op, i):
        mark = f"/mark{i}"
        after = op["mark"].format(mark)
        fail = op["fail"]
        pipe = " | ".join(op["before"] + [fail])
        broken = any(fail.endswith(x) for x in ("\\", "'open", '"open', "<", ">", "|")) \
            or (">" in fail and op["join"] == 3)
        join = op["join"]
        if join == 0 or (broken and join in (1, 3)):
            line = "\n".join(op["before"] + [fail, after])
        elif join == 1:
            line = "\n".join([pipe + " | " + after, after])
        elif join == 2:
            line = pipe + "\n\n  " + after
        elif join == 3:
            line = pipe + " > " + mark
        elif join == 4:
            line = "\r\n".join(op["before"] + [pipe, after, after])
        else:
            line = pipe
        for sh in (shell, plain):
            res = self.exec(sh, line)
            require(res.exit_code != 0, f"{line!r} succeeded although {fail!r} fails", repr(res))
            require(res.stderr.strip(), f"{line!r} failed without a message", repr(res))
            require(not vfs.exists(mark), f"{line!r} went on after the failure of {fail!r}")

    def usable(self, vfs, shell, plain, case, op):
        what = f"after {op}"
        res = self.exec(plain, "echo ok | cat")
        require(res.exit_code == 0 and res.stdout == "ok\n", f"{what} the shell is unusable",
                repr(res))
        res = self.exec(shell, "echo ok")
        listed = case["allow"] is None or "echo" in case["allow"]
        if listed and (case["limit"] is None or case["limit"] >= 3):
            require(res.exit_code == 0 and res.stdout == "ok\n", f"{what} the shell is unusable",
                    repr(res))
        vfs.write_file("/.probe~", "p")
        require(vfs.read_file("/.probe~") == "p", f"{what} the sandbox is unusable")
        vfs.remove("/.probe~")


CHECK = C16()

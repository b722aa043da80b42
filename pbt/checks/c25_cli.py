"""C25: the command line tool is a faithful front end to the shell."""
import builtins
import contextlib
import io
import os
import shutil
import subprocess
import sys

from pbt import gen, sut
from pbt.core import REPO, Check, require
from pbt.sut import q
from sandfs import cli
from sandfs.adapters import FileSystemAdapter
from sandfs.policies import NodePolicy

NAMES = ["a", "b", "c.txt", "sub", "a b", "\u00fc"]
AT = ["/m", "/n", "/m/in", "/deep/er", "/w s", "/c:d"]
TEXTS = ["", "x", "line\n", "a\nb\n", "cr\r\nlf\r\n", "\u00fcn\u00ef needle\n", "no end", "needle\nhay\n",
         "Needle 42\n" * 5]
WORDS = ["hello", "needle", "\u00fcber", "42", "a b", "x\\n", "", "--", "%d", "quit", "exit"]


class C25(Check):
    id = "C25"
    rule = """option combinations (no, one or several host directories mounted, some nested or not
    existing yet; search; host fallback) with generated command lines (reading, changing,
    searching, pipelines, redirections, several lines, failing ones, host programs) given to the
    tool once or as an interactive session with quit words, blank lines and end of input, in
    this process and sometimes in a process of its own, compared with a shell built from the same
    options over an identical copy of the host directories; non-trivial: a mount was used and the
    commands printed something and changed something or failed"""
    quick, thorough = 6400, 90000
    max_ops, op_bytes, cfg_bytes, min_ops = 8, 24, 80, 3
    assumptions = ["mount options are of the documented form host:sandbox; the host path holds "
                   "no colon", "a command does not begin with '-' (it would be an option)"]

    def decode(self, cfg, raw):
        mounts = []
        for _ in range(cfg.weighted([(1, 1), (4, 1), (3, 2), (1, 0)])):
            files = {"/".join(cfg.pick(NAMES) for _ in range(1 + cfg.below(2))): cfg.pick(TEXTS)
                     for _ in range(1 + cfg.below(4))}
            files = {k: v for k, v in files.items() if not any(o.startswith(k + "/") for o in files)}
            mounts.append({"at": cfg.pick(AT), "files": files, "there": cfg.chance(80)})
        case = {"mounts": mounts, "search": cfg.chance(45), "host": cfg.chance(40),
                "mode": cfg.weighted([(1, "exec"), (6, "shell"), (4, "exec")]), "sub": cfg.u8() >= 250,
                "style": cfg.u8(), "lines": cfg.below(4)}
        case["ops"] = [self.command(b, mounts) for b in raw]
        return case

    def command(self, b, mounts):
        def path():
            base = b.pick([m["at"] for m in mounts] * 2 + ["", "/t"])
            known = [m["at"] + "/" + k for m in mounts for k in m["files"]]
            if known and b.chance(45):
                return b.pick(known)
            return base + "".join("/" + b.pick(NAMES) for _ in range(b.weighted([(1, 0), (4, 1), (1, 2)]))) or "/"
        word = (lambda: b.pick(WORDS))
        kind = b.weighted([(1, "pwd"), (9, "write"), (4, "cat"), (3, "ls"), (2, "mkdir"), (2, "rm"), (2, "mv"),
                           (2, "cp"), (2, "cd"), (2, "echo"), (3, "search"), (3, "grep"), (2, "bad"),
                           (2, "host"), (6, "redir"), (2, "tree"), (1, "view"), (2, "quit"), (1, "blank"),
                           (4, "var"), (3, "append"), (1, "help"), (2, "long"), (1, "python")])
        p = path()
        return {
            "write": lambda: f"write {q(p)} {q(word())}", "cat": lambda: f"cat {q(p)}",
            "ls": lambda: f"ls {b.pick(['', '-l '])}{q(p)}", "mkdir": lambda: f"mkdir -p {q(p)}",
            "rm": lambda: f"rm -r {q(p)}", "mv": lambda: f"mv {q(p)} {q(path())}",
            "cp": lambda: f"cp -r {q(p)} {q(path())}", "cd": lambda: f"cd {q(p)}",
            "echo": lambda: f"echo {q(word())} {q(word())}", "search": lambda: f"search {b.pick(['needle', 'a'])} {q(p)}",
            "grep": lambda: f"grep -r {b.pick(['needle', 'x', '-i NEEDLE'])} {q(p)}",
            "bad": lambda: b.pick(["nosuch", "cat /nope/x", "ls -z", "echo 'open", "cat |", "head -n x /a",
                                   "rm /", "grep", "nosuch --flag", "cd /nope"]),
            "host": lambda: b.pick(["seq 3", "expr 1 + 2", "false", "sh -c 'echo out; echo err >&2; exit 3'",
                                    "host true", "bash -c 'exit 42'", f"host ls", "true",
                                    "sh -c 'printf \\\\r\\\\n'", "host no-such-program"]),
            "redir": lambda: f"echo {q(word())} {b.pick(['>', '>>'])} {q(p)}", "tree": lambda: f"tree {q(p)}",
            "view": lambda: b.pick(["ls '/@search?q=needle'", "cat '/@search?q=needle/m/a'", "tree '/@search?q=a'"]),
            "quit": lambda: b.pick([":q", "exit", "quit", "  quit  ", "exit 3", "quit now", " :q", "echo quit", "QUIT"]),
            "blank": lambda: b.pick(["", "   ", "\t", "# note", "#x", "  echo indented", "! ls", "?", ";", "echo x # y"]), "var": lambda: b.pick(["X=5", "X=5", "echo $X", "echo $X:", "X=7 echo $X", "echo ${X}y", "X="]),
            "pwd": lambda: "pwd", "append": lambda: f"append {q(p)} {q(word())}", "help": lambda: "help",
            "long": lambda: f"write {q(p)} {'needle' * 40} | cat", "python": lambda: "python 'print(6*7)'",
        }[kind]()

    # -- both sides ----------------------------------------------------------------------
    def lay(self, root, case):
        shutil.rmtree(root, ignore_errors=True)
        os.mkdir(root)
        for i, mt in enumerate(case["mounts"]):
            d = os.path.join(root, f"h{i}")
            if mt["there"] or mt["files"]:
                os.mkdir(d)
            for rel, text in mt["files"].items():
                p = os.path.join(d, rel)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as fh:
                    fh.write(text.encode())

    def argv(self, root, case):
        out = []
        for i, mt in enumerate(case["mounts"]):
            spec = f"{root}/h{i}:{mt['at']}"
            out += [f"--mount={spec}"] if case["style"] & (1 << i) else ["--mount", spec]
        if case["search"]:
            out.append("--enable-search")
        if case["host"]:
            out.append("--host")
        if case["style"] & 8:
            out.reverse()
            pairs = []
            i = 0
            while i < len(out):  # "--mount" and its value were swapped by reversing
                if i + 1 < len(out) and out[i + 1] == "--mount":
                    pairs.insert(0, [out[i + 1], out[i]])
                    i += 2
                else:
                    pairs.append([out[i]])
                    i += 1
            # mounts must keep their order (one may lie inside another)
            mounts = [p for p in pairs if p[0].startswith("--mount")]
            order = {f"{root}/h{k}": k for k in range(9)}
            mounts.sort(key=lambda p: order[p[-1].replace("--mount=", "").split(":")[0]])
            out = [x for p in [p for p in pairs if not p[0].startswith("--mount")] + mounts for x in p]
        return out

    def tool(self, argv, lines, case, root):
        """-> (exit code, stdout, stderr, segments or None)."""
        if case["sub"]:
            proc = subprocess.run([sys.executable, "-c", "from sandfs.cli import main; main()", *argv],
                                  input="".join(ln + "\n" for ln in lines).encode(), capture_output=True,
                                  cwd=root, env=dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1"))
            return proc.returncode, proc.stdout.decode(), proc.stderr.decode(), None
        out, err = io.StringIO(newline=""), io.StringIO(newline="")
        feed = iter(lines)
        marks = []

        def fake(prompt=""):
            marks.append((len(out.getvalue()), len(err.getvalue())))
            try:
                return next(feed)
            except StopIteration:
                raise EOFError from None
        kept, builtins.input = builtins.input, fake
        stdin, sys.stdin = sys.stdin, io.StringIO("".join(ln + "\n" for ln in lines))
        code = "returned"
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    cli.main(list(argv))
                except SystemExit as exc:
                    code = 0 if exc.code is None else exc.code
        finally:
            builtins.input, sys.stdin = kept, stdin
        marks.append((len(out.getvalue()), len(err.getvalue())))
        return code, out.getvalue(), err.getvalue(), marks

    def reference(self, root, case):
        vfs = sut.VirtualFileSystem()
        for i, mt in enumerate(case["mounts"]):
            vfs.mount_storage(mt["at"], FileSystemAdapter(f"{root}/h{i}"), policy=NodePolicy())
        if case["search"]:
            vfs.enable_search_view()
            vfs.enable_full_text_index()
        return vfs, sut.SandboxShell(vfs, host_fallback=case["host"])

    def run(self, case, env):
        root = os.path.join(env.scratch(), "work")
        self.lay(root, case)
        commands = case["ops"]
        argv = self.argv(root, case)
        if case["mode"] == "exec":
            text = "\n".join(commands[:1 + case["lines"]])
            if text.startswith("-"):
                return False
            full = ["exec", *argv, text] if not case["style"] & 16 else ["exec", text, *argv]
            lines = ["write /never x"]
        else:
            full, lines = ["shell", *argv], commands
        try:
            self.reference(root, case)
        except sut.SandboxError:
            return False  # clashing mounts: nothing is promised
        self.lay(root, case)
        code, out, err, marks = self.tool(full, lines, case, root)
        after = disk(root)
        self.lay(root, case)
        vfs, shell = self.reference(root, case)
        what = f"{full}" + (f" < {lines}" if case["mode"] == "shell" else "")
        changed = failed = printed = False
        if case["mode"] == "exec":
            res = sut.sh(shell, text)
            require(out == res.stdout, f"{what}: standard output", repr(out), repr(res.stdout))
            require(err == res.stderr, f"{what}: standard error", repr(err), repr(res.stderr))
            require(code == (res.exit_code if not case["sub"] else res.exit_code % 256),
                    f"{what}: exit code {code}, expected {res.exit_code}")
            failed, printed = res.exit_code != 0, bool(res.stdout)
        else:
            want = []
            for ln in lines:
                if ln.strip() in (":q", "exit", "quit"):
                    break
                res = sut.sh(shell, ln)
                want.append(res)
                failed |= res.exit_code != 0
                printed |= bool(res.stdout)
            require(code == 0, f"{what}: ended with {code}", err)
            if marks is not None and len(marks) > 1:
                require(len(marks) == len(want) + 2, f"{what}: read {len(marks) - 1} lines, "
                        f"expected {len(want) + 1}")
                for i, res in enumerate(want):
                    got = out[marks[i][0]:marks[i + 1][0]], err[marks[i][1]:marks[i + 1][1]]
                    require(got == (res.stdout, res.stderr), f"{what}: line {i + 1} printed",
                            repr(got), repr((res.stdout, res.stderr)))
            else:
                require(interleaved(out, [r.stdout for r in want]), f"{what}: printed", repr(out),
                        repr([r.stdout for r in want]))
                require(err == "".join(r.stderr for r in want), f"{what}: error output", repr(err))
        require(after == disk(root), f"{what}: the host directories differ", diff(after, disk(root)))
        # what the sandbox shows below a mount is what the host directory holds
        for i, mt in enumerate(case["mounts"]):
            for p, node in (vfs.walk(mt["at"]) if vfs.is_dir(mt["at"]) else []):
                p = str(p)
                inner = [x["at"] for x in case["mounts"] if p.startswith(x["at"] + "/")]
                if vfs.is_dir(p) or max(inner, key=len, default=None) != mt["at"] or \
                        sum(x["at"] == mt["at"] for x in case["mounts"]) > 1:
                    continue
                rel = f"h{i}/" + p[len(mt["at"]) + 1:]
                require(after.get(rel) == vfs.read_file(p).encode(), f"{what}: {p} is not in the host "
                        "directory", repr(after.get(rel)), repr(vfs.read_file(p)))
        self.lay(root, case)
        changed = after != disk(root)
        env.label(case["mode"], *(["changed"] if changed else []), *(["failed"] if failed else []),
                  *(["process"] if case["sub"] else []), *(["mounts"] if case["mounts"] else []))
        return bool(case["mounts"]) and printed and (changed or failed)


def interleaved(text, parts):
    """Is text the parts in order, each after a prompt (anything on one line)?"""
    spots = {0}
    for part in parts + [None]:
        ends = set()
        for s in spots:
            stop = text.find("\n", s)
            stop = len(text) if stop < 0 else stop
            ends.update(range(s, stop + 1))
        if part is None:
            return any(text[e:] in ("", "\n") for e in ends)
        spots = {e + len(part) for e in ends if text.startswith(part, e)}
    return False


def disk(root):
    out = {}
    for base, dirs, files in os.walk(root):
        for x in dirs:
            out[os.path.relpath(os.path.join(base, x), root)] = None
        for x in files:
            p = os.path.join(base, x)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


def diff(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0))[:6]


CHECK = C25()

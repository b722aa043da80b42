"""C35: optional features do not change what operations do (twin run)."""
import re

from pbt import gen, lazy, ops, sut
from pbt.core import Check, require
from pbt.model import Model
from pbt.sut import attempt, q
from sandfs import MemoryStorageAdapter, ProvidedNode, SearchQuery

LINES = ["cat {p}", "ls {d}", "ls -l {d}", "tree {d}", "find {d}", "find {d} -type f", "grep -rn needle {d}",
         "grep needle {p}", "head -n 1 {p}", "tail {p}", "wc {p}", "search needle {d}", "search -i NEEDLE {d}",
         "rg -n e {d}", "cat {p} | grep -n x", "echo {d}/*", "cat < {p}", "pwd", "echo $A ${{B}}", "A=5",
         "A=2 echo $A", "echo more >> {p}", "echo new > {p}", "cat {p} {p} > {p}", "nosuch {p}", "cat {p} | nosuch",
         "rm {p} {p}", "mkdir {p} {d}", "stat {d} | grep -v Birth | grep -v Modify", "cat 'open", "| cat",
         "echo a | write {p} b", "python -c 'print(vfs.exists({p!r}))'", "python -c 'vfs.write_file({p!r}, \"snip\")'",
         "grep -c e {p}", "find {d} -name '*a*'", "A=1 pwd", "A=1 B=2 env", "B=x cat < {p}", "A=6 pwd > {p}",
         "A=$B printenv A | cat", "env | grep -v OTHER | grep -v PATH2", "append {p} 'A=1'", "cd {d}", "cd", "sort {p}"]
FEATURES = ["index", "sview", "whook", "phook", "hooks below", "snapshots", "other shell", "mount", "provided",
            "limit", "allow", "command", "env", "searches", "fallback", "view", "exports"]
EXTRA = ("@search", "zzmnt", "zzprov")


def tidy(line, text):
    """Output without the entries that only the decorated sandbox has."""
    if line.startswith("echo") and "*" in line:
        return " ".join(w for w in text.split(" ") if not any(x in w for x in EXTRA + ("/*",))).strip("\n")
    if line.startswith("ls ") and " -l" not in line:
        return "  ".join(x for x in text.split("  ") if x.rstrip("/") not in EXTRA)
    lines = [x for x in text.split("\n") if not any(e in x for e in EXTRA)]
    if line.startswith("tree"):
        lines = [re.sub("[\u2500-\u257f]", "|", x).replace("|   ", "    ") for x in lines]
    if line.startswith(("search", "grep -rn", "rg")):
        lines.sort()
    return "\n".join(lines)


class C35(Check):
    id = "C35"
    rule = """the same history of API calls and command lines (modifying and reading, valid and not) on a
    plain sandbox and on one with a random set of optional features in use: index, search view,
    recording hooks, snapshots and exports taken, searches run, another shell, an unrelated mount and provided
    directory, output limit, allow list, view of everything, extra commands and variables; verdicts,
    outputs and whole trees must agree at every step; non-trivial: at least two features and 5
    steps, one of them refused and one changing the tree"""
    quick, thorough = 16000, 300000
    max_ops, op_bytes, cfg_bytes, min_ops = 24, 20, 110, 4
    assumptions = ["order of search results and entries for the features themselves are left out"]

    def decode(self, cfg, raw):
        pool = gen.names(cfg)
        if cfg.chance(15):
            pool = pool[:3] + ["@n", "@sea", "zz"]
        table = gen.swarm(cfg, gen.TREE_OPS)
        on = [f for f in FEATURES if cfg.chance(45)]
        bits = lazy.choose(cfg, 25)
        setup = gen.setup_tree(cfg, pool, big=False) if bits or cfg.chance(60) else []
        out = []
        for b in raw:
            kind = b.weighted([(10, "tree"), (8, "line"), (2, "policy"), (1, "keep"), (1, "back"), (1, "api")])
            if kind == "tree":
                op = gen.tree_op(b, table, pool, shell=True)
            elif kind == "line":
                op = {"op": "line", "line": b.pick(LINES), "p": gen.path_ref(b, pool),
                      "d": {"dir": b.u8(), "name": "."}}
            elif kind == "policy":
                op = {"op": "policy", "p": {"node": b.u8()}, "policy": gen.some_policy(b)}
            else:
                op = {"op": kind, "p": gen.path_ref(b, pool)}
            out.append(op)
        return {"ops": out, "setup": setup, "lazy": bits, "on": on, "late": cfg.chance(30)}

    def run(self, case, env):
        plain, rich = sut.VirtualFileSystem(), sut.VirtualFileSystem()
        on = set(case["on"])
        env.label(*sorted(on))
        if not case["late"]:
            self.decorate(rich, on)
        for vfs in (plain, rich):
            ops.install(vfs, Model(), case["setup"], case["lazy"])
        if case["late"]:
            self.decorate(rich, on)
        shells = [sut.SandboxShell(plain, env={"A": "1", "B": "two words"}),
                  sut.SandboxShell(rich, **self.options(rich, on))]
        if "command" in on:
            shells[1].register_command("extra", lambda args: "extra", description="not used")
        other = sut.SandboxShell(rich, view=sut.VisibilityView(classifications=["public"])) \
            if "other shell" in on else None
        kept, refused, changed, steps = None, 0, 0, 0
        before = None
        for i, op in enumerate(case["ops"]):
            m = Model()
            state = sut.capture(plain)
            m.adopt(state, plain.pwd() if plain.is_dir(plain.pwd()) else "/")
            what = f"step {i} {op} with {sorted(on)}"
            got = []
            for k, vfs in enumerate((plain, rich)):
                if k and on & {"snapshots", "searches", "exports", "other shell"}:
                    self.bystander(vfs, other, on, i)
                if op["op"] == "keep":
                    saved = attempt(vfs.snapshot)
                    got.append(saved[0])
                    kept = [saved[1]] if k == 0 else kept + [saved[1]]
                elif op["op"] == "back":
                    if kept is None:
                        break
                    vfs.restore(kept[k])
                    got.append("restored")
                else:
                    got.append(self.play(vfs, shells[k], m, op))
            if not got:
                continue
            steps += 1
            require(got[0] == got[1], f"{what}: differs", "plain: " + sut.short(got[0]),
                    "rich:  " + sut.short(got[1]))
            refused += isinstance(got[0], tuple) and got[0][0] is False
            if plain.is_dir(plain.pwd()) and plain.get_node(plain.pwd()) is not plain.cwd \
                    or not plain.is_dir(plain.pwd()):
                for vfs in (plain, rich):  # the current directory was removed
                    vfs.set_policy("/", sut.NodePolicy())
                    vfs.cd("/")
            require(plain.pwd() == rich.pwd(), f"{what}: pwd is {rich.pwd()!r}, plain {plain.pwd()!r}")
            now = sut.capture(plain)
            sut.compare(self.own(rich), now, what)
            changed += before is not None and now != before
            before = now
        return len(on) >= 2 and steps >= 5 and refused and changed

    def own(self, rich):
        return {p: r for p, r in sut.capture(rich).items()
                if p == "/" or p.split("/")[1] not in EXTRA}

    def decorate(self, vfs, on):
        log = []
        if "mount" in on:
            vfs.mount_storage("/zzmnt", MemoryStorageAdapter({"zzmnt": "nothing here\n"}))
        if "provided" in on:
            vfs.mount_directory("/zzprov", lambda ctx: {"zzprov": ProvidedNode.file(content="zz\n")})
        if "index" in on:
            vfs.enable_full_text_index()
        if "sview" in on:
            vfs.enable_search_view()
        if "whook" in on:
            vfs.register_write_hook("/", log.append)
        if "phook" in on:
            vfs.register_path_hook("/", log.append)
        if "hooks below" in on:
            for p in ("/a", "/b/c", "/zzmnt"):
                vfs.register_write_hook(p, log.append)
                vfs.register_path_hook(p, log.append)

    def options(self, vfs, on):
        out = {"env": {"A": "1", "B": "two words"}}
        if "env" in on:
            out["env"].update(OTHER="x", PATH2="/a")
        if "limit" in on:
            out["max_output_bytes"] = 10 ** 7
        if "allow" in on:
            out["allowed_commands"] = sut.SandboxShell(vfs).available_commands() + ["nosuch"]
        if "view" in on:
            out["view"] = sut.VisibilityView(path_prefixes=["/"])
        return out

    def bystander(self, vfs, other, on, i):
        """Things that only look; they may fail (unreadable nodes) but change nothing."""
        if "snapshots" in on:
            attempt(vfs.snapshot)
        if "searches" in on:
            attempt(vfs.search, SearchQuery("needle", ignore_case=bool(i % 2)))
            attempt(vfs.glob, "/**")
        if "exports" in on and i % 4 == 0:
            attempt(vfs.tree, "/")
            attempt(lambda: list(vfs.iter_files("/")))
        if other is not None:
            for line in ("ls /", "search needle", "A=9", "find /", "X=1 echo $A", "cat '/@search?q=needle'")[i % 3:]:
                sut.sh(other, line)

    def play(self, vfs, shell, m, op):
        p = gen.resolve(op["p"], m)
        if op["op"] == "policy":
            if m.find(p).is_dir and op["policy"]["ao"]:
                return None
            vfs.set_policy(p, sut.pol(op["policy"]))
            return None
        if op["op"] == "line":
            d = gen.resolve(op["d"], m)
            if not ops.shell_safe(p, d) or any(c in p + d for c in "'\"\\*?[]$"):
                return None
            # q() only where the word needs it; the template's own quotes stay
            line = op["line"].format(p=q(p) if "python" not in op["line"] else Bare(p), d=q(d.rstrip("/.") or "/"))
            res = sut.sh(shell, line)
            return (res.exit_code == 0, res.exit_code, tidy(line, res.stdout), tidy(line, res.stderr))
        if op["op"] == "api":
            return [self.said(attempt(f, p)) for f in (vfs.exists, vfs.is_dir, vfs.is_file, vfs.get_version,
                                                      vfs.read_file)]
        to = gen.resolve(op["to"], m) if "to" in op else None
        if op.get("via") == "sh" and ops.shell_safe(p, to, op.get("data")):
            res = sut.sh(shell, ops.shell_line(op, p, to))
            return (res.exit_code == 0, res.exit_code, res.stdout, res.stderr)
        ok, value = ops.api_call(vfs, op, p, to)
        return (ok, None if ok else (type(value).__name__, str(value)))

    def said(self, got):
        return got if got[0] else (False, type(got[1]).__name__)


class Bare(str):
    """A path inside a snippet within single quotes."""

    def __repr__(self):
        return '"' + self + '"'


CHECK = C35()

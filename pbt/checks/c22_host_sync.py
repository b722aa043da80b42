"""C22: a host command syncs back exactly its own file changes."""
import os
import re
import shlex
import tempfile
import time

from pbt import gen, lazy, ops, sut
from pbt.core import Check, require
from pbt.model import Model, plain, policy
from pbt.sut import q

SIMPLE = ["a", "b", "c.txt", "d-1", "e_f", "sub", "a.b"]
ODD = ["a b", "\u00fc", "-r", "~", "#c", "\u65e5\u672c", "a'b", 'q"q', "a\\b", "x=y", "...", ".hid", "a*", "$x",
       "[z]", "a;b", "e\u0301"]
TEXTS = ["", "x", "line\n", "a\nb\n", "cr\r\nlf\r\n", "lone\rcr", "\u00fcn\u00ef\n", "\ufeffbom", "tab\t",
         "no end", "\n\n", "\U0001f600", "nul\x00x", "\x0c\x85\u2028", "needle " * 30, " lead", "'q' \"d\" $v `x`",
         "big\n" + "0123456789abcde\n" * 4500]


class C22(Check):
    id = "C22"
    rule = """trees with arbitrary text contents and some protected nodes, changed by host
    commands (scripts of writes, appends, deletions, renames, new and removed directories,
    file-directory exchanges, rewrites with equal content; single programs with absolute or
    relative arguments; inline scripts; beside a file whose provider returns other content each time; reading commands; failing commands and ones ended by a signal; files beyond 64 KiB; standard input and
    variables; from any current directory or -C) and compared with the same changes made
    to a reference tree; non-trivial: at least 2 host commands changed something and at
    least 2 files existed that they left alone"""
    quick, thorough = 9600, 200000
    max_ops, op_bytes, cfg_bytes, min_ops = 7, 60, 120, 2
    assumptions = ["host programs create files with UTF-8 text, directories, links to files, "
                   "dangling links and pipes (the latter two are not files), but no links to "
                   "directories", "names in absolute arguments are plain ASCII words",
                   "an absolute argument names an existing node or an entry of an existing "
                   "directory below the root (others are the host's own paths)"]

    def decode(self, cfg, raw):
        names = SIMPLE if cfg.chance(50) else SIMPLE[:4] + ODD
        setup = gen.setup_tree(cfg, names, n=8, data=lambda b: b.pick(TEXTS))
        prot = [{"p": cfg.u8(), "policy": cfg.pick([policy(w=False), policy(ao=True), policy(r=False),
                                                    policy(cls="secret", pr=["x"])])}
                for _ in range(cfg.below(3))] if cfg.chance(35) else []
        out = []
        for b in raw:
            mode = b.weighted([(6, "script"), (4, "args"), (3, "inline"), (4, "read"), (2, "result")])
            op = {"mode": mode, "cwd": b.u8(), "C": b.chance(35), "at": b.u8(), "rel": b.chance(45),
                  "k": b.u8(), "code": b.pick([0, 0, 0, 1, 3, 42, 255]), "acts": []}
            for _ in range(1 + b.below(4) if mode == "script" else 1 + b.below(2)):
                op["acts"].append({"do": b.weighted([(4, "write"), (3, "append"), (3, "rm"), (2, "mkdir"),
                                                     (3, "mv"), (2, "same"), (1, "swap"), (2, "cp"),
                                                     (1, "touch")]),
                                   "n": b.u8(), "new": b.chance(50), "d": b.u8(), "name": b.pick(names),
                                   "text": b.pick(TEXTS)})
            if mode == "script" and b.chance(12):
                op["special"] = {"kind": b.below(4), "d": b.u8(), "n": b.u8()}
            out.append(op)
        return {"setup": setup, "lazy": lazy.choose(cfg), "prot": prot, "ops": out, "fallback": cfg.chance(50),
                "live": cfg.below(3) if cfg.chance(40) else None}

    # -- a plain disk: path -> text, or None for a directory -----------------------------
    def pick(self, disk, act, want):
        pool = [p for p in sorted(disk) if p != "/" and want(disk[p])]
        return pool[act["n"] % len(pool)] if pool else None

    def fresh(self, disk, act):
        pool = [p for p in sorted(disk) if disk[p] is None]
        base = pool[act["d"] % len(pool)]
        return (base if base != "/" else "") + "/" + act["name"]

    def act(self, disk, act, words, simple, at):
        """Perform one action on the disk; -> shell text (or argv) doing the same."""
        w = words
        is_file = (lambda v: v is not None)
        above = (lambda p: at == p or at.startswith(p + "/"))  # would pull away the working directory
        do = act["do"]
        if do in ("write", "append"):
            p = self.fresh(disk, act) if act["new"] else self.pick(disk, act, is_file)
            if p is None or (p in disk and disk[p] is None) or (simple and not simple(p)):
                return None
            disk[p] = (disk.get(p) or "" if do == "append" else "") + act["text"]
            return f"printf %b {q(escape(act['text']))} {'>>' if do == 'append' else '>'} {w(p)}"
        if do == "same":
            p = self.pick(disk, act, is_file)
            if p is None or (simple and not simple(p)):
                return None
            return f"printf %b {q(escape(disk[p]))} > {w(p)}"
        if do == "touch":
            p = self.fresh(disk, act) if act["new"] else self.pick(disk, act, is_file)
            if p is None or (simple and not simple(p)):
                return None
            disk.setdefault(p, "")
            return f"touch {w(p)}"
        if do == "rm":
            p = self.pick(disk, act, lambda v: True)
            if p is None or above(p) or (simple and not simple(p)):
                return None
            for x in [x for x in disk if x == p or x.startswith(p + "/")]:
                del disk[x]
            return f"rm -r {w(p)}"
        if do == "mkdir":
            p = self.fresh(disk, act)
            if p in disk or (simple and not simple(p)):
                return None
            disk[p] = None
            return f"mkdir {w(p)}"
        if do in ("mv", "cp"):
            p = self.pick(disk, act, lambda v: True) if do == "mv" else self.pick(disk, act, is_file)
            t = self.fresh(disk, act)
            if p is None or (do == "mv" and above(p)) or t == p or t.startswith(p + "/") or (t in disk and (
                    disk[t] is None or disk[p] is None)) or (simple and not (simple(p) and simple(t))):
                return None
            for x in [x for x in sorted(disk) if x == p or x.startswith(p + "/")]:
                disk[t + x[len(p):]] = disk[x]
                if do == "mv":
                    del disk[x]
            return f"{do} {w(p)} {w(t)}"
        p = self.pick(disk, act, lambda v: True)
        if p is None or above(p) or (simple and not (simple(p) and simple(p + "/in"))):
            return None
        was = disk[p]
        for x in [x for x in disk if x == p or x.startswith(p + "/")]:
            del disk[x]
        if was is None:
            disk[p] = act["text"]
            return f"rm -r {w(p)} && printf %b {q(escape(act['text']))} > {w(p)}"
        disk[p] = None
        disk[p + "/in"] = act["text"]
        return f"rm {w(p)} && mkdir {w(p)} && printf %b {q(escape(act['text']))} > {w(p + '/in')}"

    def special(self, disk, sp, relative):
        """Dangling links, loops and pipes hold no file; a link to a file is a file."""
        p, name = "/", "zz-special"
        while p in disk:
            p, name = self.fresh(disk, {"d": sp["d"], "name": name}), name + "-"
        files = [x for x in sorted(disk) if disk[x] is not None]
        if sp["kind"] == 0:
            return f"mkfifo {q(relative(p))}"
        if sp["kind"] == 1:
            return f"ln -s {p.rsplit('/', 1)[1]} {q(relative(p))}"
        if sp["kind"] == 2 or not files:
            return f"ln -s no/such/place {q(relative(p))}"
        to = files[sp["n"] % len(files)]
        disk[p] = disk[to]
        return f"ln -s {'../' * (p.count('/') - 1)}{q('./' + to[1:])} {q(relative(p))}"

    def run(self, case, env):
        vfs = sut.VirtualFileSystem()
        shell = sut.SandboxShell(vfs, host_fallback=case["fallback"], env={"GREETING": "hi there"},
                                 view=sut.VisibilityView(principals={"x"}))
        m = Model()
        ops.install(vfs, m, case["setup"], case["lazy"])
        for pr in case["prot"]:
            pool = m.paths()[1:]
            node = m.find(pool[pr["p"] % len(pool)])
            pol = pr["policy"] if not (node.is_dir and (pr["policy"]["ao"] or not pr["policy"]["r"])) \
                else policy(w=False)
            node.policy = dict(pol)
            vfs.set_policy(node.path(), sut.pol(pol))
        self.ticks = None if case.get("live") is None else [0]
        if self.ticks:  # a file whose content is another one at every look
            vfs.set_policy("/", sut.NodePolicy())
            vfs.mount_file("/zzlive", self.tick)
            vfs.set_policy("/zzlive", sut.NodePolicy(writable=case["live"] == 0, append_only=case["live"] == 2))
            vfs.set_policy("/", sut.pol(m.root.policy))
        shell.register_command("feed", lambda args, ctx: self.stdin)
        scratch = env.scratch()
        changed = 0
        for i, op in enumerate(case["ops"]):
            ops.home(vfs, m)
            dirs = [n.path() for n in m.root.walk() if n.is_dir and n.policy["r"]]
            cwd = dirs[op["cwd"] % len(dirs)]
            vfs.cd(cwd)
            m.cd(cwd)
            changed += self.step(vfs, shell, m, op, scratch, case, f"step {i}", env)
        return changed >= 2 and len(m.files()) >= 2

    def tick(self, ctx):
        self.ticks[0] += 1
        return f"tick {self.ticks[0]}\n"

    def step(self, vfs, shell, m, op, scratch, case, what, env):
        disk = {n.path(): n.content for n in m.root.walk()}
        before = dict(disk)
        mode = op["mode"]
        dirs = [p for p in sorted(disk) if disk[p] is None and ops.shell_safe(p)
                and m.find(p).policy["r"]]
        at = dirs[op["at"] % len(dirs)] if op["C"] else m.pwd()
        if op["C"]:
            opt = f"{['-C', '-p', '--path'][op['k'] % 3]} {q(at)} {'-- ' if op['k'] & 4 else ''}"
        else:
            opt = ""

        def relative(p):
            here, there = [x for x in at.split("/") if x], [x for x in p.split("/") if x]
            while here and there and here[0] == there[0]:
                here, there = here[1:], there[1:]
            return "./" + "/".join([".."] * len(here) + there)

        def simple(p):
            if op["rel"]:
                return ops.shell_safe(p) and not re.search(r"[^\w./-]", p) and "\\" not in p
            parent = p.rsplit("/", 1)[0]
            return re.fullmatch(r"[A-Za-z0-9._/-]+", p) and "..." not in p and (
                p in before or (parent and before.get(parent, "") is None))

        def absolute(p):
            return p

        stdin, want_out, want_code, want_err = None, "", 0, None
        if mode == "script":
            words = relative
            lines = ["set -e"]
            for a in op["acts"]:
                text = self.act(disk, a, lambda p: q(relative(p)), None, at)
                lines += [text] if text else []
            if "special" in op:
                lines.append(self.special(disk, op["special"], relative))
            lines.append(f"echo done; exit {op['code']}")
            want_out, want_code = "done\n", op["code"]
            path = os.path.join(scratch, "run.sh")
            with open(path, "w") as fh:
                fh.write("\n".join(lines) + "\n")
            line = f"host {opt}sh {path}" if opt or op["k"] & 8 else f"sh {path}"
            what += f" {line!r} with {lines}"
        elif mode in ("args", "inline"):
            # single programs whose arguments name sandbox paths
            words = relative if op["rel"] else absolute
            a = dict(op["acts"][0])
            if mode == "args":
                a["do"] = {"write": "touch", "append": "cp", "same": "touch", "swap": "mkdir"}.get(
                    a["do"], a["do"])
            text = self.act(disk, a, lambda p: q(words(p)), simple, at)
            if text is None or len(text) > 60000:
                return 0
            if mode == "args":
                prog = text.split()[0]
                known = prog in ("rm", "mkdir", "mv", "cp", "touch")
                line = f"host {opt}{text}" if known or opt or not case["fallback"] else text
            else:
                if "$" in text:
                    return 0
                line = f"host {opt}sh -c {q(text)}" if opt else f"{['sh', 'bash'][op['k'] & 1]} -c {q(text)}"
                if not ops.shell_safe(text):
                    return 0
            what += f" {line!r}"
        elif mode == "read":
            files = [p for p in sorted(disk) if disk[p] is not None and simple(p)]
            if not files:
                return 0
            p = files[op["k"] % len(files)]
            word = relative(p) if op["rel"] else p
            want_out = disk[p]
            k = op["code"] % 3
            if k == 0 or opt:
                line = f"host {opt}cat {q(word)}"
            elif k == 1:
                line = f"sh -c {q('cat ' + q(word))}"
            else:
                self.stdin = want_out
                line = f"feed | host {opt}cat"
            what += f" {line!r}"
        else:
            k = op["k"] % 7
            code = op["code"]
            if k == 0:
                line = f"host {opt}sh -c {q(f'echo out; echo err >&2; exit {code}')}"
                want_out, want_err, want_code = "out\n", "err\n", code
            elif k == 1:
                line, want_out = f"X=42 sh -c {q('echo $X $GREETING')}", "42 hi there\n"
            elif k == 2:
                line, want_code, want_out = f"host {opt}no-such-program x", 127, ""
            elif k == 3:
                listing = sorted(p.rsplit("/", 1)[1] for p in disk
                                 if p != "/" and (p.rsplit("/", 1)[0] or "/") == at)
                if any(c in n for n in listing for c in "\n"):
                    return 0
                if self.ticks and at == "/":
                    listing = sorted(listing + ["zzlive"])
                line, want_out = f"host {opt}ls -A", None
                self.want_names = listing
            elif k == 4:
                line, want_out = f"host {opt}true", ""
            elif k == 6:  # a variable given to an earlier command is not there
                sut.sh(shell, "X=41 sh -c true")
                line, want_out = f"sh -c {q('echo [$X] $GREETING')}", "[] hi there\n"
            else:  # ended by a signal
                sig = [15, 9][op["at"] % 2]
                line = f"host {opt}sh -c {q(f'echo out; kill -{sig} $$; sleep 9')}"
                want_out, want_code = "out\n", (-sig, 128 + sig)
            what += f" {line!r}"
        tmp = tempfile.gettempdir()
        there = sorted(os.listdir(tmp))
        outside = sorted(os.listdir(scratch))
        stamps = None if case["lazy"] else {n: vfs.get_node(n) for n in m.files()}
        stamps = stamps and {n: (f.created_at, f.modified_at) for n, f in stamps.items()}
        start = time.time() - 0.0005
        res = sut.sh(shell, line)
        require(sorted(os.listdir(tmp)) == there, f"{what}: left something in the temporary "
                "directory", sorted(set(os.listdir(tmp)) - set(there)))
        require(sorted(os.listdir(scratch)) == outside, f"{what}: touched the host")
        require(vfs.pwd() == m.pwd() or not vfs.is_dir(m.pwd()), f"{what}: moved to {vfs.pwd()}")
        if self.ticks:
            seen = self.ticks[0]
            require(vfs.read_file("/zzlive") == f"tick {seen + 1}\n" and vfs.get_version("/zzlive") == 0,
                    f"{what}: a provided file that it left alone holds {vfs.read_file('/zzlive')!r}")
        got = sut.capture(vfs)
        got.pop("/zzlive", None)
        blocked = self.blocked(m, before, disk)
        if blocked:
            env.label("blocked")
            require(res.exit_code != 0, f"{what}: changed {blocked} which is protected", repr(res))
            self.partial(m, before, disk, got, what)
            m.adopt(got, "/")
            return 0
        if want_out is None:
            require(sorted(res.stdout.split("\n")[:-1]) == self.want_names, f"{what}: saw",
                    repr(res.stdout), self.want_names)
        else:
            require(res.stdout == want_out, f"{what}: printed", repr(res), repr(want_out))
        if isinstance(want_code, int):
            want_code = (want_code,)
        require(res.exit_code in want_code, f"{what}: exit code", repr(res), want_code)
        if want_err is not None:
            require(res.stderr == want_err, f"{what}: error text", repr(res), repr(want_err))
        self.apply(m, before, disk)
        sut.compare(got, m.state(), what)
        for p, old in (stamps or {}).items():
            if disk.get(p) is None:
                continue
            new = (vfs.get_node(p).created_at, vfs.get_node(p).modified_at)
            require(new == old if disk[p] == before[p] else new[0] == old[0] and new[1] >= start,
                    f"{what}: times of {p!r} changed from {old} to {new}")
        env.label(mode, *(["changed"] if before != disk else []))
        ops.home(vfs, m)
        return before != disk

    def blocked(self, m, before, after):
        """Protected nodes in the way of turning one tree into the other."""
        out = []
        for p in sorted(set(before) | set(after)):
            node = m.find(p)
            if p in before and p in after and before[p] == after[p]:
                continue
            if p in before and p in after and before[p] is not None and after[p] is not None:
                if not node.policy["w"] or node.policy["ao"]:
                    out.append(p)
                continue
            parent = m.find(p.rsplit("/", 1)[0] or "/")
            if parent is not None and not plain(parent):
                out.append(parent.path())
            if p in before and not plain(node):
                out.append(p)
        return out

    def partial(self, m, before, after, got, what):
        """Every path is as before or as after; protected nodes are as before."""
        for p in sorted(set(before) | set(after) | set(got)):
            node = m.find(p)
            now = got[p]["content"] if p in got else False
            ok = {before.get(p, False), after.get(p, False)}
            require(now in ok or (p in before and p in after and before[p] != after[p]
                                  and None in (before[p], after[p]) and now is False),
                    f"{what}: {p} is {sut.short(now)}, was {sut.short(before.get(p, False))}")
            if node is not None and not node.policy["w"] or node is not None and node.policy["ao"]:
                require(now == before[p] and got[p]["policy"] == node.policy
                        and (node.is_dir or got[p]["version"] == node.version),
                        f"{what}: the protected {p} changed")

    def apply(self, m, before, after):
        for p in sorted(before, key=len, reverse=True):
            if p not in after or (after[p] is None) != (before[p] is None):
                node = m.find(p)
                if node is not None:
                    del node.parent.kids[node.name]
        for p in sorted(after, key=lambda x: (x.count("/"), x)):
            node = m.find(p)
            if node is None:
                if after[p] is None:
                    m.mkdir(p)
                else:
                    m.write(p, after[p])
            elif after[p] is not None and node.content != after[p]:
                m.write(p, after[p])


def escape(text):
    """For printf %b: every byte in octal."""
    return "".join(f"\\0{b:03o}" for b in text.encode())


CHECK = C22()

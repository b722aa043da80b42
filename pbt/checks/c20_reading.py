"""C20: reading commands print exactly what the tree holds."""
import datetime
import fnmatch
import re

from pbt import gen, lazy, ops, sut, words
from pbt.core import Check, require
from pbt.model import Model
from pbt.sut import q

POOLS = {
    "plain": ["a", "b", "c", "d.txt", "e.md", "ab", "abc", "A"],
    "odd": ["a b", "\u00fc", "x.txt", "~", "#c", "\u65e5\u672c", "a'b", 'q"q', "a\\b", "a=b", "x-y"],
    "wild": ["a*", "[z]", "z", "a", "ab", "?", "a?", "[!a]", "b]", "[a"],
}
LINES = ["", "a needle", "Needle", "x", "two words", "\u00fcber", "needle needle", "1234", "tab\there",
         " lead", "trail ", "a.b", "foo:bar", "end", "\u65e5\u672c needle", "AbC", "abc"]
LITERALS = ["needle", "Needle", "e", "a.b", "two w", "\u00fc", "NEEDLE", "1", ":", "zzz", "abc", " ", "tab\t", ""]
REGEXES = ["^a", "e$", "[0-9]+", "a.b", "n(ee|x)dle", "^$", "^needle", "\\bneedle\\b", "x|1", ".", "A?bc",
           "[^a]b", "end$", "\\.", "(", "e.*e"]


def content(b):
    kind = b.weighted([(30, "few"), (10, "many"), (5, "empty"), (5, "open"), (1, "huge"), (1, "wide")])
    if kind == "empty":
        return ""
    if kind == "huge":
        return (b.pick(LINES) + "\n") * (200 + b.below(20000)) + b.pick(LINES) + "\n"
    if kind == "wide":
        return b.pick(LINES) + "w" * (1000 + b.below(65000)) * (1 + b.below(2)) + b.pick(LINES) + "\n"
    n = b.below(6) if kind != "many" else 8 + b.below(20)
    text = "".join(b.pick(LINES) + "\n" for _ in range(n))
    return text + (b.pick(LINES[1:]) if kind == "open" else "")


def blur(b, name):
    """A glob component made from a name."""
    kind = b.below(7)
    if kind == 0:
        return name
    if kind == 1:
        return "*"
    if kind == 2:
        return name[:b.below(len(name))] + "*"
    if kind == 3:
        return "*" + name[b.below(len(name)):]
    i = b.below(len(name))
    if kind == 4:
        return name[:i] + "?" + name[i + 1:]
    if kind == 5:
        return name[:i] + "[" + b.pick(["abz", "!q", "a-c", name[i] if name[i] not in "]![\\^-" else "a"]) + "]" \
            + name[i + 1:]
    return b.pick(["?", "??", "*.*", "*a*", "[a-z]*", "*.txt"])


class C20(Check):
    id = "C20"
    rule = """trees with ordinary, odd and glob-character names and line contents, queried by
    cat, head, tail, wc, grep, rg, find, ls, tree, stat, echo, pwd, globs on files, directories,
    several operands, standard input and all flag combinations (a few files of up to hundreds of
    kilobytes; explicit node times for stat); every output is compared with
    a reference computed from a model of the tree and the tree must stay as it was;
    non-trivial: at least 5 commands printed something and 3 different commands occurred"""
    quick, thorough = 30000, 450000
    max_ops, op_bytes, cfg_bytes, min_ops = 16, 24, 160, 1
    assumptions = ["lines end in a newline character; byte counts for head/tail/stat over ASCII "
                   "text only", "names do not start with a dot where a glob is judged"]

    def decode(self, cfg, raw):
        pool = POOLS[cfg.pick(["plain", "plain", "odd", "wild"])]
        setup = gen.setup_tree(cfg, pool, n=9, data=content)
        out = []
        for b in raw:
            kind = b.weighted([(3, "cat"), (4, "head"), (4, "tail"), (2, "wc"), (4, "grep"), (2, "rg"),
                               (4, "find"), (3, "ls"), (2, "tree"), (2, "stat"), (2, "echo"), (1, "pwd"),
                               (5, "glob"), (2, "cd")])
            op = {"k": kind, "p": [b.u8() for _ in range(1 + b.below(3))], "in": b.chance(25),
                  "rel": b.chance(30), "flags": b.u8(), "n": b.weighted(
                      [(2, 0), (2, 1), (3, 2), (2, 5), (1, 10), (1, 11), (1, 1000), (1, 27)])}
            if kind == "grep" or kind == "rg":
                op["regex"] = b.chance(45)
                op["pat"] = b.pick(REGEXES if op["regex"] else LITERALS)
            elif kind == "find":
                op["name"] = blur(b, b.pick(pool)) if b.chance(60) else None
                op["type"] = b.pick([None, None, "f", "d"])
            elif kind == "echo":
                op["words"] = [words.meaning([words.piece(b, None)], {}) for _ in range(b.below(4))]
            elif kind == "glob":
                op["parts"] = [blur(b, b.pick(pool)) for _ in range(1 + b.below(3))]
                op["abs"] = b.chance(50)
                op["up"] = b.below(3) if b.chance(20) else 0
                op["rnd"] = [b.u8() for _ in range(3)]
            out.append(op)
        bits = lazy.choose(cfg)
        return {"setup": setup, "lazy": bits, "ops": out,
                "times": [] if bits else [cfg.u16() for _ in range(cfg.below(8))]}

    # ---- reference -----------------------------------------------------------------------
    def kids(self, node):
        return sorted(node.kids.values(), key=lambda n: (not n.is_dir, n.name))

    def listing(self, node, long):
        kids = self.kids(node) if node.is_dir else [node]
        if long:
            return "\n".join(("d " if k.is_dir else "- ") + k.path() for k in kids)
        return "  ".join(k.name + ("/" if k.is_dir else "") for k in kids)

    def drawn(self, node):
        lines = [node.path()]

        def draw(n, lead):
            kids = self.kids(n)
            for i, k in enumerate(kids):
                last = i == len(kids) - 1
                lines.append(lead + ("\u2514\u2500\u2500 " if last else "\u251c\u2500\u2500 ") + k.name
                             + ("/" if k.is_dir else ""))
                if k.is_dir:
                    draw(k, lead + ("    " if last else "\u2502   "))
        draw(node, "")
        return "\n".join(lines)

    def matching(self, op, text):
        hits = []
        for i, line in enumerate(text.split("\n")[:-1] if text.endswith("\n") or not text
                                 else text.split("\n"), 1):
            flags = re.IGNORECASE if op["flags"] & 1 else 0
            if op["regex"]:
                hit = re.search(op["pat"], line, flags)
            elif flags:
                hit = op["pat"].lower() in line.lower()
            else:
                hit = op["pat"] in line
            if hit:
                hits.append((i, line))
        return hits

    def cut(self, op, text, end):
        n = op["n"]
        if op["flags"] % 4 == 0:
            n = 10
        if op["flags"] % 4 == 1 and text.isascii():
            return (text[:n] if end == "head" else text[max(0, len(text) - n):])
        lines = re.findall(r"[^\n]*\n|[^\n]+\Z", text)
        return "".join(lines[:n] if end == "head" else lines[max(0, len(lines) - n):])

    # ---- run -----------------------------------------------------------------------------
    def run(self, case, env):
        vfs = sut.VirtualFileSystem()
        m = Model()
        ops.install(vfs, m, case["setup"], case["lazy"])
        vfs.mkdir("/zzempty/0", parents=True)
        m.mkdir("/zzempty/0", True)
        sh = sut.SandboxShell(vfs)
        got_args = []
        sh.register_command("args", lambda args, ctx: got_args.append(list(args)))
        sh.register_command("feed", lambda args, ctx: self.stdin)
        for i, t in enumerate(case["times"]):
            node = vfs.get_node(m.paths()[i % len(m.paths())])
            node.created_at = 1.5e9 + t * 997.25
            node.modified_at = node.created_at + [0.0, 0.5, 61.0, 86400.5, 3600.0, -5.0][t % 6]
        self.vfs = vfs
        before = m.state() if case["lazy"] else sut.capture(vfs, times=True)
        shown, kinds = 0, set()
        for i, op in enumerate(case["ops"]):
            kind = op["k"]
            nodes = [m.find(p) for p in m.paths()]
            files = [n for n in nodes if not n.is_dir]
            dirs = [n for n in nodes if n.is_dir]
            what = f"step {i} (in {m.pwd()})"
            if kind == "cd":
                d = dirs[op["p"][0] % len(dirs)]
                if not ops.shell_safe(d.path()):
                    vfs.cd(d.path())
                    m.cd(d.path())
                else:
                    res = sut.sh(sh, "cd " + q(d.path()))
                    require(res.exit_code == 0 and vfs.pwd() == d.path(), f"{what}: cd", repr(res))
                    m.cd(d.path())
                continue
            if kind == "glob":
                shown += self.glob(vfs, sh, m, op, nodes, got_args, what)
                kinds.add(kind)
                continue
            made = self.command(op, m, files, dirs, nodes)
            if made is None:
                continue
            line, check = made
            res = sut.sh(sh, line)
            what = f"{what} {line!r}"
            if check is None:
                require(res.exit_code != 0, f"{what}: should fail", repr(res))
                continue
            require(res.exit_code == 0 and res.stderr == "", f"{what}: failed", repr(res))
            check(res.stdout, what)
            shown += bool(res.stdout)
            kinds.add(kind)
            env.label(kind)
        sut.compare(sut.capture(vfs, times=True), before, "reading changed the tree")
        require(vfs.pwd() == m.pwd(), f"current directory is {vfs.pwd()}, not {m.pwd()}")
        return shown >= 5 and len(kinds) >= 3

    def spell(self, op, m, node):
        return ops.relative(node.path(), m) if op["rel"] else node.path()

    def command(self, op, m, files, dirs, nodes):
        kind = op["k"]
        if kind == "pwd":
            return "pwd", self.exactly(m.pwd())
        if kind == "echo":
            ws = list(op["words"])
            newline = op["flags"] % 3 != 0
            while ws[:1] == ["-n"]:  # a later -n is text
                ws.pop(0)
            if ws and op["flags"] % 5 == 0:
                ws.append("-n")
            return "echo " + ("" if newline else "-n ") + " ".join(q(w) for w in ws), \
                self.exactly(" ".join(ws) + ("\n" if newline else ""))
        if not files and kind not in ("ls", "tree", "find", "stat"):
            return None
        pick = (lambda pool: [pool[k % len(pool)] for k in op["p"]])
        if kind in ("cat", "head", "tail", "wc"):
            chosen = pick(files)
            if kind != "cat" and not op["flags"] & 16:
                chosen = chosen[:1]
            if not all(ops.shell_safe(n.path()) for n in chosen):
                return None
            spelled = [self.spell(op, m, n) for n in chosen]
            if any(s.startswith("-") for s in spelled):
                return None
            texts = [n.content for n in chosen]
            source = ""
            if op["in"]:
                self.stdin = files[op["flags"] % len(files)].content
                source = "feed | "
                if (op["flags"] & 32) if kind == "cat" else op["p"][0] % 3:
                    spelled, texts = [], [self.stdin]
                else:
                    spelled.insert(op["n"] % (len(spelled) + 1), "-")
                    texts.insert(spelled.index("-"), self.stdin)
            operands = " ".join(q(s) for s in spelled)
            if kind == "cat":
                return f"{source}cat {operands}", self.exactly("".join(texts))
            if kind == "wc":
                if any(t and not t.endswith("\n") for t in texts):
                    return None
                flag = ["", "-l", "-c", "-l -c"][op["flags"] % 4]
                want = []
                for t, s in zip(texts, spelled or [None]):
                    row = []
                    if flag != "-c":
                        row.append(str(t.count("\n")))
                    if flag != "-l":
                        row.append(str(len(t.encode())))
                    want.append(" ".join(row + ([s] if s else [])))
                return f"{source}wc {flag} {operands}", self.exactly("\n".join(want))
            mode = op["flags"] % 4
            if mode == 1 and not all(t.isascii() for t in texts):
                return None
            flag = ["", f"-c {op['n']}", f"-n {op['n']}", f"-n {op['n']}"][mode]
            line = f"{source}{kind} {flag} {operands}" if op["flags"] & 8 or not operands \
                else f"{source}{kind} {operands} {flag}"
            wants = [self.cut(op, t, kind) for t in texts]
            if len(texts) == 1:
                return line, self.exactly(wants[0])
            flat = []
            for s, w in zip(spelled, wants):
                flat += [f"==> {s} <=="] + [x for x in w.split("\n") if x]
            return line, lambda got, what: require(
                [x for x in got.split("\n") if x] == flat, f"{what}: printed", got, "expected "
                f"(but for blank lines) {flat}")
        if kind in ("grep", "rg"):
            flags = (["-i"] if op["flags"] & 1 else []) + (["-n"] if op["flags"] & 2 else []) \
                + (["-e"] if op["regex"] else [])
            number = op["flags"] & 2
            bad = op["regex"] and op["pat"] == "("
            if op["in"] and kind == "grep" and op["p"][0] % 3:
                self.stdin = files[op["p"][0] % len(files)].content
                want = [f"{i}:{x}" if number else x for i, x in self.matching(op, self.stdin)] \
                    if not bad else None
                return f"feed | grep {' '.join(flags)} {q(op['pat'])}", \
                    None if bad else self.exactly("\n".join(want))
            if kind == "rg" or op["flags"] & 4:
                if kind == "grep":
                    flags.append("-r")
                tops = pick(dirs)[:1] + (pick(files)[:1] if op["flags"] & 8 else [])
            else:
                tops = pick(files)
            if not all(ops.shell_safe(n.path()) for n in tops):
                return None
            spelled = [self.spell(op, m, n) for n in tops]
            if any(s.startswith("-") for s in spelled):
                return None
            source = ""
            if op["in"] and kind == "grep":  # "-" among the operands
                self.stdin = files[op["flags"] % len(files)].content
                source = "feed | "
                spelled.insert(op["n"] % (len(spelled) + 1), "-")
                tops.insert(spelled.index("-"), None)
            want = []
            if not bad:
                for top in tops:
                    if top is None:
                        want += [f"{i}:{x}" if number else x for i, x in self.matching(op, self.stdin)]
                        continue
                    for f in top.walk():
                        if not f.is_dir:
                            want += [f"{f.path()}:{i}:{x}" if number else f"{f.path()}:{x}"
                                     for i, x in self.matching(op, f.content)]
            line = f"{source}{kind} {' '.join(flags)} {q(op['pat'])} {' '.join(q(s) for s in spelled)}"
            if bad and not any(not f.is_dir for t in tops if t for f in t.walk()):
                return None
            if all(t is None or not t.is_dir for t in tops):
                return line, None if bad else self.exactly("\n".join(want))
            return line, None if bad else self.same_lines(want)
        if kind == "find":
            tops = pick(nodes) if op["flags"] % 4 else [m.find(m.pwd())]
            name = op["name"]
            if name is not None and name.startswith("-"):
                return None
            if not all(ops.shell_safe(n.path()) for n in tops):
                return None
            spelled = [self.spell(op, m, n) for n in tops] if op["flags"] % 4 else []
            if any(s.startswith("-") for s in spelled):
                return None
            want = []
            for top in tops:
                for n in top.walk():
                    if op["type"] and (op["type"] == "d") != n.is_dir:
                        continue
                    own = "" if n.path() == "/" else n.name
                    if name is not None and not fnmatch.fnmatchcase(own, name):
                        continue
                    want.append(n.path())
            line = "find " + " ".join(q(s) for s in spelled)
            tests = ([f"-name {q(name)}"] if name is not None else []) \
                + ([f"-type {op['type']}"] if op["type"] else [])
            if op["flags"] & 32:
                tests.reverse()
            return line + " " + " ".join(tests), self.same_lines(want)
        if kind == "ls":
            tops = pick(nodes) if op["flags"] % 4 else [m.find(m.pwd())]
            if not all(ops.shell_safe(n.path()) for n in tops):
                return None
            spelled = [self.spell(op, m, n) for n in tops] if op["flags"] % 4 else []
            if any(s.startswith("-") for s in spelled):
                return None
            long = op["flags"] & 8
            line = f"ls {['-l', '--long'][bool(op['flags'] & 16)] if long else ''} " \
                + " ".join(q(s) for s in spelled)
            if len(tops) == 1:
                return line, self.exactly(self.listing(tops[0], long))
            want = []
            for s, n in zip(spelled, tops):
                want += [s + ":"] + [x for x in self.listing(n, long).split("\n") if x]
            return line, lambda got, what: require(
                [x for x in got.split("\n") if x] == want, f"{what}: printed", got, repr(want))
        if kind == "tree":
            top = pick(dirs)[0] if op["flags"] % 4 else m.find(m.pwd())
            if not ops.shell_safe(top.path()):
                return None
            spelled = q(self.spell(op, m, top)) if op["flags"] % 4 else ""
            return f"tree {spelled}", self.exactly(self.drawn(top))
        if kind == "stat":
            n = pick(nodes)[0]
            if not ops.shell_safe(n.path()):
                return None
            spelled = self.spell(op, m, n)

            def check(got, what):
                require(f"File: {n.path()}\n" in got, f"{what}: wrong path", got)
                require(("directory" in got.split("\n")[1]) == n.is_dir, f"{what}: wrong kind", got)
                node = self.vfs.get_node(n.path())
                for label, at in (("Birth", node.created_at), ("Modify", node.modified_at)):
                    day = datetime.datetime.fromtimestamp(at).strftime("%Y-%m-%d %H:%M:%S")
                    require(re.search(rf"^\s*{label}: {day}$", got, re.M), f"{what}: {label} is not "
                            + day, got)
                if not n.is_dir:
                    vers = re.search(r"Vers: (\d+)", got)
                    require(vers and int(vers.group(1)) == n.version, f"{what}: wrong version", got)
                    if n.content.isascii():
                        size = re.search(r"Size: (\d+)", got)
                        require(size and int(size.group(1)) == len(n.content), f"{what}: wrong size",
                                got)
            return f"stat {q(spelled)}", check
        raise AssertionError(kind)

    def glob(self, vfs, sh, m, op, nodes, got_args, what):
        parts = list(op["parts"])
        if op["flags"] & 1:
            # follow an existing path so that something matches
            target = nodes[op["p"][0] % len(nodes)].path().split("/")[1:]
            if target == [""]:
                return 0
            parts = [t if r % 3 == 0 or not t else ("*" if r % 3 == 1 else t[:1] + "*")
                     for t, r in zip(target, op["rnd"] + [1] * 9)]
            base = "/"
        else:
            base = "/" if op["abs"] else m.pwd()
        if any("\\" in p or "$" in p or "**" in p for p in parts) or not any(
                c in p for p in parts for c in "*?[]"):
            return 0
        if op["flags"] & 6 == 6 and len(parts) > 1 and len(op["rnd"]) > 1:
            i = op["rnd"][0] % len(parts)  # ** stands for any number of components
            parts[i:i + 1 + op["rnd"][1] % 2] = ["**"]
        text = "/".join(parts)
        if base == "/" and (op["abs"] or op["flags"] & 1):
            text = "/" + text
        elif op["up"]:
            text = "../" * op["up"] + text
            for _ in range(op["up"]):
                base = base.rsplit("/", 1)[0] or "/"
        if text.startswith("-") or text == "**":
            return 0
        fixed = base.split("/")[1:] if base != "/" else []
        want = sorted(
            n.path() for n in nodes if n.path() != "/" and self.fits(n.path().split("/")[1:], fixed, parts))
        ok, got = sut.attempt(vfs.glob, text)
        require(ok, f"{what} glob({text!r}) failed", repr(got))
        if len(parts) == 1 and "/" not in text:  # the order ls shows
            want.sort(key=lambda p: (not m.find(p).is_dir, p))
        if "**" in parts:  # whether it also stands for no component at all is not judged
            may = {n.path() for n in nodes if self.fits(
                [c for c in n.path().split("/") if c], fixed, parts, 0)}
            require(set(want) <= set(got) <= may | set(want) and len(got) == len(set(got)),
                    f"{what} glob({text!r})", got, want)
            want = got
        require(got == want, f"{what} glob({text!r})", got, want)
        got_args.clear()
        res = sut.sh(sh, f"args {sut.qglob(text)} {q(text)}")
        require(res.exit_code == 0 and len(got_args) == 1, f"{what} args {text!r}", repr(res))
        require(got_args[0][:-1] == (want or [text]), f"{what} {text!r} expanded to",
                got_args[0][:-1], want or [text])
        require(got_args[0][-1] == text, f"{what} {q(text)!r} (quoted) was taken as", got_args[0][-1])
        return bool(want)

    def fits(self, comps, fixed, parts, least=1):
        return comps[:len(fixed)] == fixed and self.along(comps[len(fixed):], parts, least)

    def along(self, comps, parts, least):
        if not parts:
            return not comps
        if parts[0] == "**":
            return any(self.along(comps[n:], parts[1:], least) for n in range(least, len(comps) + 1))
        return bool(comps) and fnmatch.fnmatchcase(comps[0], parts[0]) and self.along(comps[1:], parts[1:], least)

    def exactly(self, want):
        return lambda got, what: require(got == want, f"{what}: printed", repr(got), repr(want))

    def same_lines(self, want):
        def check(got, what):
            lines = got.split("\n") if got else []
            require(sorted(lines) == sorted(want), f"{what}: printed",
                    f"unexpected {sorted(set(lines) - set(want))[:5]}",
                    f"missing {sorted(set(want) - set(lines))[:5]}",
                    f"{len(lines)} lines for {len(want)}")
        return check


CHECK = C20()

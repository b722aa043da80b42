"""C32: the modifying shell commands do exactly what their operands and flags say."""
from pbt import gen, lazy, ops, sut
from pbt.core import Check, require
from pbt.model import Model, Partial, Refused

FLAGS = {"mkdir": ["-p", "--parents"], "rm": ["-r", "-rf", "-R", "--recursive"],
         "cp": ["-r", "-R", "--recursive"]}
TEXTS = ["x", "two words", "", "-n", "--", "--appendx", "-", "a\nb", "\u00fc\u65e5", " lead", "trail ",
         "  ", "--tex", "$HOME", "*", "it's", "\\n", "\\", "%s", "a\\tb", '"', "-r", "#c", "a|b", "> x",
         "\r", "t\tt", "--text=", "0"]
QUOTED = ["--append", "--text"]
FORMATS = ["%s", "%s\\n", "a\\tb", "\\\\n", "%s-%s", "[%s]\\n[%s]\\n", "\\\\", "plain", "\\\\\\n", "x\\\\t%s", "\\r%s\\",
           "\u00fc\\n%s", "\\q%s", "n", "\\\\%s\\\\"]
USAGE = ["write", "append", "append {p}", "touch", "mkdir", "mkdir -p", "rm", "rm -r", "cp", "cp {p}",
         "cp -r {p}", "mv", "mv {p}", "mv {p} {p} {p}", "cp {p} {p} {p}", "cd {p} {p}"]


def quote(text, style):
    if style == 1 and "'" not in text:
        return f"'{text}'"
    if style == 2:
        return '"' + text.replace("\\", "\\\\").replace('"', '\\"').replace("$", "\\$") \
            .replace("`", "\\`") + '"'
    if style == 3 and text and not any(c in text for c in "\r\n"):
        return "".join("\\" + c for c in text)
    return sut.q(text)


def formatted(fmt, values):
    """What printf prints: escapes of the format read once, left to right, values literally."""
    out, i, values = "", 0, list(values)
    table = {"n": "\n", "t": "\t", "r": "\r", "\\": "\\"}
    while i < len(fmt):
        if fmt[i] == "\\" and fmt[i + 1:i + 2] in table and i + 1 < len(fmt):
            out += table[fmt[i + 1]]
            i += 2
        elif fmt[i:i + 2] == "%s":
            out += values.pop(0)
            i += 2
        else:
            out += fmt[i]
            i += 1
    return out


class C32(Check):
    id = "C32"
    rule = """histories of write, append, touch, mkdir, rm, cp, mv, cd and echo, printf or cat with a
    redirection, through one shell, with one to four operands, flags in any accepted form and place,
    texts of any number of words (among them empty ones and ones that look like flags), random
    quoting, absolute and relative paths, protected nodes and usage mistakes, on given, empty or
    lazily provided trees; oracle: the reference filesystem
    applied operand by operand up to the first refused one, the exact text, exit code and output;
    non-trivial: at least 4 successful lines, one with several operands or words, and a refused one"""
    quick, thorough = 24000, 400000
    max_ops, op_bytes, cfg_bytes, min_ops = 24, 40, 90, 3
    assumptions = ["no operand starts with a dash, a bare last --text is not used",
                   "printf has as many values as %s and no other % directive"]

    def decode(self, cfg, raw):
        pool = [n for n in gen.names(cfg) if not n.startswith("-")]
        bits = lazy.choose(cfg, 20)
        setup = gen.setup_tree(cfg, pool, big=False) if bits or cfg.chance(70) else []
        policies = cfg.chance(35)
        out = []
        for b in raw:
            kind = b.weighted([(5, "write"), (3, "append"), (3, "touch"), (5, "mkdir"), (5, "rm"),
                               (4, "cp"), (4, "mv"), (2, "cd"), (4, "echo"), (3, "printf"), (2, "cat"),
                               (1, "usage"), (2, "policy")])
            if kind == "policy":
                if policies:
                    p = {"node": b.u8()}
                    pol = gen.some_policy(b)
                    out.append({"op": kind, "p": p, "policy": pol})
                    continue
                kind = "touch"
            op = {"op": kind, "style": b.u8(), "rel": b.chance(30)}
            if kind == "usage":
                op["line"], op["p"] = b.pick(USAGE), gen.path_ref(b, pool)
            elif kind in ("touch", "mkdir", "rm"):
                n = b.weighted([(4, 1), (4, 2), (2, 3), (1, 4)])
                op["ps"] = [gen.path_ref(b, pool) for _ in range(n)]
                if kind == "mkdir" and n > 1 and b.chance(25):
                    first = op["ps"][0]
                    if isinstance(first, str) and first != "/":
                        op["ps"][1] = first + "/" + b.pick(pool)
                if n > 1 and b.chance(12):
                    op["ps"][-1] = op["ps"][0]
            elif kind in ("cp", "mv"):
                op["ps"] = [gen.path_ref(b, pool), gen.path_ref(b, pool)]
            else:
                op["ps"] = [gen.path_ref(b, pool)]
            if kind in FLAGS:
                op["flags"] = [[b.u8(), b.pick(FLAGS[kind])]
                               for _ in range(b.weighted([(4, 0), (8, 1), (1, 2)]))]
            if kind == "write":
                op["items"] = [self.item(b) for _ in range(b.below(5))]
            elif kind in ("append", "echo"):
                op["words"] = [b.pick(TEXTS + QUOTED) for _ in range(b.below(4) + (kind == "append"))]
                op["n"] = kind == "echo" and b.chance(35)
            elif kind == "printf":
                op["fmt"] = b.pick(FORMATS) + (b.pick(FORMATS) if b.chance(40) else "")
                op["words"] = [b.pick(TEXTS) for _ in range(op["fmt"].count("%s"))]
            elif kind == "cat":
                op["from"] = [gen.path_ref(b, pool) if b.chance(30) else {"file": b.u8()}
                              for _ in range(1 + b.below(3))]
            if kind in ("echo", "printf", "cat"):
                op["to"] = b.weighted([(3, ">"), (3, ">>"), (2, None)])
            out.append(op)
        return {"ops": out, "setup": setup, "lazy": bits}

    def item(self, b):
        kind = b.weighted([(5, "w"), (4, "text"), (2, "append")])
        if kind == "append":
            return {"append": 1}
        if kind == "text":
            return {"text": b.pick(TEXTS + QUOTED)}
        return {"w": b.pick(TEXTS)}

    def run(self, case, env):
        vfs = sut.VirtualFileSystem()
        shell = sut.SandboxShell(vfs)
        m = Model()
        ops.install(vfs, m, case["setup"], case["lazy"])
        good = bad = many = 0
        for i, op in enumerate(case["ops"]):
            if op["op"] == "policy":
                p = gen.resolve(op["p"], m)
                if m.find(p).is_dir and op["policy"]["ao"]:
                    continue
                vfs.set_policy(p, sut.pol(op["policy"]))
                m.set_policy(p, op["policy"])
                continue
            line, steps, out = self.plan(op, m)
            what = f"step {i}: {line!r}"
            want = "ok"
            for k, step in enumerate(steps):
                try:
                    step()
                except Refused as exc:
                    want = f"refused: {exc}"
                    break
                except Partial:
                    want = "partial"
                    break
            if callable(out):
                out = out()
            res = sut.sh(shell, line)
            require((res.exit_code == 0) == (want == "ok"),
                    f"{what}: exit code {res.exit_code}, expected {want}", repr(res))
            if want == "ok":
                require(res.stdout == out and not res.stderr, f"{what}: printed {sut.short(res)}",
                        f"expected {sut.short(out)}")
                good += 1
                many += len(op.get("ps", [])) + len(op.get("items", op.get("words", []))) > 2
            else:
                require(res.stderr.strip(), f"{what}: failed without a message", repr(res))
                bad += 1
            env.label(f"{op['op']}-{want.split(':')[0]}")
            got = sut.capture(vfs)
            if want == "partial":
                m.adopt(got, m.pwd() if m.pwd() in got else "/")
                if vfs.pwd() != m.pwd():
                    ops.home(vfs, m)
                continue
            sut.compare(got, m.state(), what, versions=False)
            sut.adopt_versions(m, got)
            ops.settle(vfs, m)
            require(vfs.pwd() == m.pwd(), f"{what}: pwd is {vfs.pwd()!r}, expected {m.pwd()!r}")
        return good >= 4 and many and bad

    def plan(self, op, m):
        """-> (command line, model steps in order, expected output or a function giving it)"""
        kind, style = op["op"], op["style"]
        turn = iter(range(10 ** 6))

        def word(text):
            return quote(text, (style >> next(turn) % 6) % 4)

        def path(ref):
            p = gen.resolve(ref, m)
            return ops.relative(p, m) if op["rel"] else p

        if kind == "usage":
            p = path(op["p"])
            return op["line"].format(p=word(p)), [self.refuse], ""
        ps = [path(r) for r in op["ps"]]
        if kind == "rm" and len(ps) > 1:
            ps = [m.norm(p) for p in ps]
        parts = [word(p) for p in ps]
        out = ""
        if kind == "write":
            append, texts = False, []
            for it in op["items"]:
                if "append" in it:
                    append = True
                    parts.append("--append")
                elif "text" in it:
                    texts.append(it["text"])
                    parts += ["--text", word(it["text"])]
                else:
                    texts.append(it["w"])
                    parts.append(word(it["w"]))
            steps = [lambda: m.write(ps[0], " ".join(texts), append=append)]
        elif kind == "append":
            parts += [word(t) for t in op["words"]]
            steps = [lambda: m.write(ps[0], " ".join(op["words"]), append=True)]
        elif kind in ("echo", "printf", "cat"):
            steps, out, words = [], "", []
            if kind == "echo":
                words = list(op["words"])
                while words[:1] == ["-n"] and not op["n"]:
                    words = words[1:]
                out = " ".join(words) + ("" if op["n"] else "\n")
                parts = (["-n"] if op["n"] else []) + [word(t) for t in words]
            elif kind == "printf":
                out = formatted(op["fmt"], op["words"])
                parts = [word(op["fmt"])] + [word(t) for t in op["words"]]
            else:
                froms = [path(r) for r in op["from"]]
                parts = [word(p) for p in froms]
                texts = []
                steps = [lambda p=p: texts.append(m.read(p)) for p in froms]
                out = lambda: "".join(texts)  # noqa: E731
            if op["to"]:
                data = out if callable(out) else (lambda t=out: t)
                steps.append(lambda: m.write(ps[0], data(), append=op["to"] == ">>"))
                return f"{kind} {' '.join(parts)} {op['to']} {word(ps[0])}", steps, ""
        elif kind == "cd":
            steps, out = [lambda: m.cd(ps[0])], m.pwd
        else:
            flag = bool(op.get("flags"))
            for at, text in op.get("flags", []):
                parts.insert(at % (len(parts) + 1), text)
            if kind in ("cp", "mv"):
                steps = [lambda: m.copy(*ps, flag) if kind == "cp" else m.move(*ps)]
            else:
                one = {"touch": m.touch, "mkdir": lambda p: m.mkdir(p, flag, flag),
                       "rm": lambda p: m.remove(p, flag)}[kind]
                steps = [lambda p=p: one(p) for p in ps]
        return f"{kind} {' '.join(parts)}", steps, out

    def refuse(self):
        raise Refused("usage")


CHECK = C32()

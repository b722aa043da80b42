"""C19: pipelines, redirections and variables compose as in a shell."""
import os

from pbt import sut, words
from pbt.core import Check, require
from pbt.model import collapse
from sandfs.shell import CommandResult

VARS = {"A": "val", "B": "two words", "P": "/d/p", "O": "a|b > c", "E": "", "Q": "it's \"q\"",
        "UNSET": None, "N_1": "n.1", "D": "$A", "D2": "p${E}q$UNSET$", "D3": "$D $Z", "G": "*", "G2": "/d/[fg]", "HOME": None, "PATH": None}
FILES = ["/d/f", "/d/g", "/h", "f", "../h", "/d/new", "n2", "/d/o p", "/d/a|b", "/d/>x", "/d/'q'"]
SPARE = ["/d/spare1", "/d/spare2"]
HOSTED = ["HOME", "LANG", "Z", "TERM", "PWD", "A", "USER", "LC_ALL", "EDITOR"]
OUTS = ["", "x", "line\n", "a\nb\n", "no newline", "\u00fc\u65e5\n", "crlf\r\n", "\n\n", "$A *", "|> <"]


def plain_word(b, text):
    """The same text, quoted somehow (whole)."""
    style = b.pick(["single", "double", "slash", "bare"])
    if style == "bare" and not words.SAFE.match(text):
        style = "double"
    if style == "single" and "'" in text:
        style = "double"
    return [["lit", text, style]]


class C19(Check):
    id = "C19"
    rule = """scripts of pipelines of recorder commands, echo and cat, with words built from
    pieces in random quoting (operator characters, quotes, backslashes, blanks, non-ASCII text,
    variables), random spacing around operators, assignments before commands or alone, input,
    output and appending redirections (also two of a kind; some to missing files or directories) and commands that
    fail; a reference evaluator predicts every command's arguments, input and environment, all
    files and the result; non-trivial: at least 3 commands ran, one of them with input from a
    pipe or file, and one quoted operator or redirection occurred"""
    quick, thorough = 28000, 400000
    max_ops, op_bytes, cfg_bytes, min_ops = 6, 150, 30, 1
    assumptions = ["variables are not referred to by the command they are set for",
                   "unquoted globs do not occur (C20 has them)",
                   "when a command has two output redirections, only the last one's file is "
                   "judged (the other may be left alone or emptied)"]

    def decode(self, cfg, raw):
        vals = {k: v for k, v in VARS.items() if cfg.chance(70)}
        lines = []
        for b in raw:
            if b.chance(15):
                lines.append({"set": self.assignments(b, vals, 1 + b.below(3), alone=True),
                              "ws": b.below(3)})
                for k, w in lines[-1]["set"]:
                    vals.pop(k, None)  # refer to it only through the known ones
                continue
            cmds = []
            for _ in range(b.weighted([(3, 1), (4, 2), (3, 3), (1, 4)])):
                name = b.weighted([(6, "rec"), (2, "rec2"), (2, "echo"), (2, "cat"), (1, "fail")])
                pre = self.assignments(b, vals, b.weighted([(6, 0), (2, 1), (1, 2)]))
                own = {k for k, _ in pre}
                usable = {k: v for k, v in vals.items() if k not in own}
                cmd = {"name": name, "pre": pre, "out": b.pick(OUTS), "err": b.pick(["", "", "e!", "w\n"]),
                       "code": b.pick([1, 2, 7, 126, 255]),
                       "args": [words.word(b, usable) for _ in range(b.below(4))] if name != "cat" else [],
                       "redir": [], "glue": [b.below(8) for _ in range(4)]}
                for op in ("<", ">"):
                    if b.chance(22):
                        path = b.pick(FILES)
                        if b.chance(6):
                            path = b.pick(["/d", "/missing", "/d/f/x"])
                        target = plain_word(b, path)
                        if "P" in usable and b.chance(8):
                            target = [["var", "P", "dq"]]
                        cmd["redir"].append({"op": op if op == "<" else b.pick([">", ">>"]), "to": target,
                                             "pos": b.below(6)})
                        if b.chance(15):  # a second one: the last on the line counts
                            cmd["redir"].append({
                                "op": op if op == "<" else b.pick([">", ">>"]), "pos": b.below(6),
                                "to": plain_word(b, b.pick(["/d/f", "/h"] if op == "<" else SPARE))})
                cmds.append(cmd)
            lines.append({"pipe": cmds})
        host = None
        if cfg.chance(6):
            known = sorted(k for k, v in VARS.items() if v)
            host = {"pre": [cfg.pick(HOSTED), plain_word(cfg, cfg.pick(["v", "/d/f", "a b", "x=y"]))],
                    "get": cfg.pick([None, None] + known)}
        return {"vals": {k: v for k, v in VARS.items() if v is not None}, "lines": lines,
                "host": host}

    def assignments(self, b, vals, n, alone=False):
        out, used = [], set()
        for _ in range(n):
            key = b.pick(["Z", "Y", "_z9", "A", "E"])
            if key in used:
                continue
            used.add(key)
            known = {k: v for k, v in vals.items() if k not in ("Z", "Y", "_z9", "A", "E")}
            if alone:  # one after the other: a later one may refer to an earlier one
                known.update((k, None) for k in used - {key})
                if out and b.chance(30):
                    out.append([key, [["var", out[-1][0], "dq"]]])
                    continue
            out.append([key, words.word(b, known, 2)])
        return out

    def layout(self, c):
        """Words of a command in the order they are written; redirections as records."""
        parts = [f"{k}={words.render(w)}" for k, w in c["pre"]] + [c["name"]] \
            + [words.render(w) for w in c["args"]]
        for r in c["redir"]:
            at = 1 + r["pos"] % len(parts) if len(parts) > 1 else 1
            parts.insert(max(at, 0), r)
        return parts

    def render_command(self, c):
        out = ""
        gap = ["", " ", " ", "\t"][c["glue"][0] % 4]
        for i, p in enumerate(self.layout(c)):
            text, tight = (p, False) if isinstance(p, str) else (
                p["op"] + gap + words.render(p["to"]), c["glue"][1] % 4 == 0)
            # an operator may touch the word before it unless that word ends in a digit
            # (a file descriptor number in other shells) or is an assignment
            if i and not (tight and not parts_digit(out)):
                out += [" ", "  ", "\t", " "][c["glue"][2] % 4]
            out += text
        return out

    def line(self, ln):
        if "set" in ln:
            return ["", "  ", "\t"][ln["ws"]] + " ".join(f"{k}={words.render(w)}" for k, w in ln["set"])
        out = ""
        for i, c in enumerate(ln["pipe"]):
            if i:
                out += ["|", " | ", " |", "| "][c["glue"][3] % 4]
            out += self.render_command(c)
        return out

    def run(self, case, env):
        vfs = sut.VirtualFileSystem()
        files = {"/d/f": "first\nsecond\n", "/d/g": "", "/h": "no end", "/d/p": "p\n"}
        for p, t in files.items():
            vfs.write_file(p, t)
        vfs.cd("/d")
        sh = sut.SandboxShell(vfs, env=dict(case["vals"]))
        other = sut.SandboxShell(vfs, env={"A": "other"})
        log, plan = [], []

        def make(name):
            def handler(args, ctx):
                log.append([name, list(args), ctx.stdin, dict(ctx.env)])
                c = plan[len(log) - 1] if len(log) <= len(plan) else None
                if c is None:
                    return ""
                if name == "fail":
                    return CommandResult(stdout=c["out"], stderr=c["err"] or "bad", exit_code=c["code"])
                return CommandResult(stdout=c["out"] + ctx.stdin[-40:], stderr=c["err"])
            return handler
        for name in ("rec", "rec2", "fail"):
            sh.register_command(name, make(name))
        shell_env = dict(case["vals"])
        want_log, final, quoted, stop, optional = [], ("", "", 0), False, False, None
        text = "\n".join(self.line(ln) for ln in case["lines"])
        ran = fed = 0
        for ln in case["lines"]:
            if "set" in ln:
                final = ("", "", 0)
                for k, w in ln["set"]:
                    shell_env[k] = words.meaning(w, shell_env)
                continue
            pipe, errs = "", ""
            for c in ln["pipe"]:
                cenv = dict(shell_env)
                for k, w in c["pre"]:
                    cenv[k] = words.meaning(w, shell_env)
                args = [words.meaning(w, shell_env) for w in c["args"]]
                quoted |= bool(c["redir"]) or any(t in "|<>" and t for w in c["args"]
                                                  for _, t, _s in w)
                stdin, fault = pipe, False
                redir = {}
                for r in self.layout(c):
                    if not isinstance(r, str):
                        if r["op"] != "<":
                            redir.pop(">", None)
                            redir.pop(">>", None)
                        redir[r["op"]] = collapse(words.meaning(r["to"], shell_env), "/d")
                if "<" in redir:
                    fed += 1
                    if redir["<"] not in files:
                        fault = True
                    else:
                        stdin = files[redir["<"]]
                elif stdin:
                    fed += 1
                if fault:
                    optional = [c["name"]]
                    final, stop = (None, None, None), True
                    break
                ran += 1
                err, code = "", 0
                if c["name"] == "echo":
                    line_args, nl = args, "\n"
                    if args[:1] == ["-n"]:
                        line_args, nl = args[1:], ""
                    out = " ".join(line_args) + nl
                elif c["name"] == "cat":
                    out = stdin
                else:
                    want_log.append([c["name"], args, stdin, cenv])
                    plan.append(c)
                    err = c["err"]
                    out = c["out"] + stdin[-40:]
                    if c["name"] == "fail":
                        out, err, code = c["out"], c["err"] or "bad", c["code"]
                errs += err
                if code:
                    final, stop = (out, errs, code), True
                    break
                for op in (">", ">>"):
                    if op in redir:
                        to = redir[op]
                        if to == "/d" or to.startswith("/d/f/"):
                            final, stop = (None, None, None), True
                            break
                        files[to] = (files.get(to, "") if op == ">>" else "") + out
                        out = ""
                if stop:
                    break
                pipe = out
            if stop:
                break
            final = (pipe, errs, 0)
        res = sut.sh(sh, text)
        what = f"{text!r}"
        if optional and len(log) == len(want_log) + 1 and log[-1][0] == optional[0]:
            log.pop()
        require(len(log) == len(want_log), f"{what}: ran {[x[:3] for x in log]}",
                f"expected {[x[:3] for x in want_log]}")
        for got, want in zip(log, want_log):
            require(got[1] == want[1], f"{what}: {got[0]} got the arguments {got[1]}",
                    f"expected {want[1]}")
            require(got[2] == want[2], f"{what}: {got[0]} got the input {got[2]!r}",
                    f"expected {want[2]!r}")
            require(got[3] == want[3], f"{what}: {got[0]} got the variables {got[3]}",
                    f"expected {want[3]}")
        if final[2] is None:
            require(res.exit_code != 0 and res.stderr.strip(), f"{what}: should have failed",
                    repr(res))
        else:
            require((res.stdout, res.stderr, res.exit_code) == final, f"{what}: gave",
                    repr(res), repr(final))
        state = {p: r["content"] for p, r in sut.capture(vfs).items() if not r["dir"]}
        for p in SPARE:  # targets of redirections that a later one on the line overrides
            if p not in files and state.get(p) == "":
                del state[p]
            elif files.get(p) and state.get(p) == "":
                del state[p], files[p]
        require(state == files, f"{what}: files are", sut.short(state), sut.short(files))
        # what stays set, and nowhere else
        for key in ("Z", "Y", "_z9", "A", "E", "UNSET", "O", "HOME", "PATH"):
            res = sut.sh(sh, 'echo "<$' + key + '>"')
            require(res.stdout == f"<{shell_env.get(key, '')}>\n", f"{what}: ${key} is then",
                    repr(res.stdout), repr(shell_env.get(key, "")))
        if case["host"]:
            self.host(sh, shell_env, case["host"], what, env)
        res = sut.sh(other, 'echo "<$Z><$A>"')
        require(res.stdout == "<><other>\n", f"{what}: another shell sees", repr(res.stdout))
        env.label(*(["failed"] if stop else ["through"]), *(["fed"] if fed else []))
        return ran >= 3 and fed >= 1 and quoted


    def host(self, sh, shell_env, host, what, env):
        """A host command sees the shell's variables and, before them, its own."""
        for name in ("HOME", "USER", "EDITOR"):
            os.environ.setdefault(name, "from-outside")
        key, w = host["pre"]
        get = host["get"] or key
        line = f"{key}={words.render(w)} host printenv {get}"
        value = words.meaning(w, {}) if get == key else shell_env.get(get, "")
        res = sut.sh(sh, line)
        require(res.exit_code == 0 and res.stdout == value + "\n", f"{what}, then {line}: a host "
                f"command sees {get} as", repr(res), f"expected {value!r}")
        env.label("host")


def parts_digit(text):
    return bool(text) and (text[-1].isdigit() or "=" in text.split()[-1])


CHECK = C19()

"""C30: registered commands are called with their arguments and context, and their return counts."""
import functools

from pbt import sut, views, words
from pbt.core import Check, Violation, require
from sandfs.exceptions import InvalidOperation, NodeNotFound
from sandfs.shell import CommandContext, CommandResult

NAMES = ["one", "two", "two-b", "echo", "cat", "ls", "\u00fc", "pwd", "nosuch", "x1", "python", "host"]
SHAPES = ["both", "args", "star", "default", "method", "partial", "object", "object1", "named"]
VARS = {"A": "val", "B": "two words", "P": "/d/p", "E": "", "UNSET": None}
TEXTS = ["", "x", "line\n", "a\nb\n", "\u00fc\u65e5", " lead", "0", "None"]


class Odd:
    def __str__(self):
        return "odd thing"


VALUES = {"int": (42, "42"), "zero": (0, "0"), "false": (False, "False"), "list": ([1, "b"], "[1, 'b']"),
          "odd": (Odd(), "odd thing"), "float": (1.5, "1.5")}


class Failure(Exception):
    pass


class C30(Check):
    id = "C30"
    rule = """histories of registrations (new names, names of built-ins, the same name again;
    functions, methods, partial applications and callable objects taking arguments only, arguments
    and context, or anything; with or without description) and command lines using them alone, in
    pipelines, with redirections, assignments, quoted words and variables, in shells with a view,
    by handlers that return a result, text, other values or nothing, raise, change what they were
    given, or act on the sandbox and the shell while they run; oracle: the recorded calls, a reference evaluation of the
    line and the shell's variables afterwards; non-trivial: at least 4 calls, one name replaced"""
    quick, thorough = 16000, 250000
    max_ops, op_bytes, cfg_bytes, min_ops = 14, 90, 20, 2
    assumptions = ["handlers take arguments, or arguments and context, by position",
                   "a replaced command's description is judged only if a new one was given"]

    def decode(self, cfg, raw):
        out, known = [], []
        pool = [cfg.pick(NAMES) for _ in range(1 + cfg.below(4))]
        for i, b in enumerate(raw):
            if i == 0 or b.chance(30):
                name = b.pick(pool)
                known.append(name)
                out.append({"reg": name, "shape": b.pick(SHAPES), "does": self.action(b),
                            "doc": b.pick(["", "", "says so", "Two words - dash"])})
                continue
            cmds = []
            for _ in range(b.weighted([(5, 1), (3, 2), (2, 3)])):
                pre = []
                if b.chance(25):
                    pre.append([b.pick(["Z", "A"]), words.word(b, {"P": "/d/p", "B": "two words"}, 2)])
                own = {k for k, _ in pre}
                cmd = {"name": b.pick(known), "pre": pre,
                       "args": [words.word(b, {k: v for k, v in VARS.items() if k not in own})
                                for _ in range(b.below(4))]}
                if b.chance(15):
                    cmd["in"] = b.pick(["/d/f", "/d/g"])
                cmds.append(cmd)
            out.append({"pipe": cmds, "to": b.pick([">", ">>"]) if b.chance(15) else None})
        view = dict(views.decode_view(cfg, ["/"]), prefixes=None) if cfg.chance(25) else None
        return {"ops": out, "view": view, "env": {k: v for k, v in VARS.items() if v is not None}}

    def action(self, b):
        kind = b.weighted([(4, "text"), (4, "result"), (2, "none"), (2, "value"), (3, "raise"),
                           (2, "fail"), (2, "scribble"), (2, "cd"), (2, "write"), (2, "nested"),
                           (1, "register"), (2, "stdin")])
        return {"k": kind, "text": b.pick(TEXTS), "err": b.pick(["", "warn", "w\n"]),
                "code": b.pick([1, 2, 7, 126, 255, -9]), "n": b.u8(),
                "value": b.pick(sorted(VALUES))}

    def run(self, case, env):
        vfs = sut.VirtualFileSystem()
        files = {"/d/f": "first\nsecond\n", "/d/g": "", "/out": "was\n", "/log": ""}
        for p, t in files.items():
            vfs.write_file(p, t)
        vfs.mkdir("/e")
        vfs.cd("/d")
        view = views.make_view(case["view"]) if case["view"] else None
        shell = sut.SandboxShell(vfs, env=dict(case["env"]), **({"view": view} if view else {}))
        other = sut.SandboxShell(vfs)
        usable = all(sut.sh(shell, f"cat < {p}").exit_code == 0 for p in files)
        builtins = set(shell.available_commands())
        self.log, self.shell, self.vfs = [], shell, vfs
        handlers, docs, replaced, calls = {}, {}, 0, 0
        senv = dict(case["env"])
        cwd = "/d"
        for i, op in enumerate(case["ops"]):
            if "reg" in op:
                name = op["reg"]
                replaced += name in builtins or name in handlers
                shell.register_command(name, self.handler(name, op["shape"], op["does"], i),
                                       **({"description": op["doc"]} if op["doc"] else {}))
                handlers[name] = (i, op)
                if op["doc"] or name not in docs:
                    docs[name] = op["doc"] if op["doc"] or name not in builtins else None
                self.catalogue(shell, other, builtins, handlers, docs, f"step {i}")
                continue
            if not usable and (op["to"] or any("in" in c for c in op["pipe"])):
                continue
            line = self.render(op)
            what = f"step {i} {line!r}"
            self.log.clear()
            want, final, state = [], None, {"cwd": cwd, "files": dict(files), "errs": "",
                                         "handlers": dict(handlers), "extra": 0}
            pipe = ""
            for c in op["pipe"]:
                cenv = dict(senv)
                for k, w in c["pre"]:
                    cenv[k] = words.meaning(w, senv)
                stdin = state["files"][c["in"]] if "in" in c else pipe
                args = [words.meaning(w, senv) for w in c["args"]]
                index, reg = state["handlers"][c["name"]]
                want.append((index, c["name"], args, stdin, cenv, state["cwd"]))
                out, err, code = self.predict(reg, args, stdin, state)
                if code:
                    final = (out, state["errs"] + (err or ""), code) if err is not None \
                        else (out, None, code)
                    break
                state["errs"] += err
                pipe = out
            else:
                if op["to"]:
                    old = state["files"]["/out"] if op["to"] == ">>" else ""
                    state["files"]["/out"] = old + pipe
                    pipe = ""
                final = (pipe, state["errs"], 0)
            try:
                res = shell.exec(line)
            except Exception as exc:
                raise Violation(f"{what}: raised {type(exc).__name__}: {exc}") from exc
            got = [x[:6] if x[7] else (*x[:3], *w[3:6]) for x, w in zip(self.log, want)] \
                if len(self.log) == len(want) else [x[:6] for x in self.log]
            require(got == want, f"{what}: calls were", sut.short(got), "expected " + sut.short(want))
            for x in self.log:
                if x[7]:
                    require(x[6][0] is vfs and x[6][1] is shell.view, f"{what}: {x[1]} got another "
                            "sandbox or view")
            calls += len(want)
            require(res.stdout == final[0] and res.exit_code == final[2]
                    and (res.stderr.strip() if final[1] is None else res.stderr == final[1]),
                    f"{what}: gave", repr(res), repr(final))
            files, cwd = state["files"], state["cwd"]
            now = {p: r["content"] for p, r in sut.capture(vfs).items() if not r["dir"]}
            require(now == files, f"{what}: files are", sut.short(now), sut.short(files))
            require(vfs.pwd() == cwd, f"{what}: the current directory is {vfs.pwd()!r}, not {cwd!r}")
            require(shell.env == senv, f"{what}: the shell's variables are", sut.short(shell.env),
                    sut.short(senv))
            env.label("failed" if final[2] else "through", *[h[1]["does"]["k"] for h in handlers.values()])
            if state["extra"]:
                handlers = state["handlers"]
                docs.update((n, None) for n in ("made",) if n in handlers)
                self.catalogue(shell, other, builtins, handlers, docs, what)
        return calls >= 4 and replaced >= 1

    def render(self, op):
        parts = []
        for c in op["pipe"]:
            text = [f"{k}={words.render(w)}" for k, w in c["pre"]] + [c["name"]]
            text += [words.render(w) for w in c["args"]]
            if "in" in c:
                text += ["<", c["in"]]
            parts.append(" ".join(text))
        return " | ".join(parts) + (f" {op['to']} /out" if op["to"] else "")

    def handler(self, name, shape, does, index):
        def act(args, ctx):
            seen = isinstance(ctx, CommandContext)
            self.log.append((index, name, list(args), ctx.stdin if seen else None,
                             dict(ctx.env) if seen else None, ctx.cwd if seen else None,
                             (ctx.vfs, ctx.view) if seen else None, seen))
            return self.perform(does, args, ctx if seen else None)

        class Callable2:
            def __call__(self, args, ctx):
                return act(args, ctx)

            def method(self, args, ctx):
                return act(args, ctx)

        class Callable1:
            def __call__(self, args):
                return act(args, None)

        def named(words_, context=None):
            return act(words_, context)

        return {"both": lambda args, ctx: act(args, ctx), "args": lambda args: act(args, None),
                "star": lambda *a: act(*a), "default": lambda args, ctx=None: act(args, ctx),
                "method": Callable2().method, "partial": functools.partial(lambda n, a, c: act(a, c), 1),
                "object": Callable2(), "object1": Callable1(), "named": named}[shape]

    def perform(self, does, args, ctx):
        kind, text = does["k"], does["text"]
        if kind == "text":
            return text
        if kind == "result":
            return CommandResult(stdout=text, stderr=does["err"])
        if kind == "none":
            return None
        if kind == "value":
            return VALUES[does["value"]][0]
        if kind == "raise":
            raise [Failure("went wrong"), InvalidOperation("not here"), NodeNotFound("no node"),
                   KeyError("key"), OSError(2, "missing"), ValueError("bad value")][does["n"] % 6]
        if kind == "fail":
            return CommandResult(stdout=text, stderr=does["err"] or "bad", exit_code=does["code"])
        if kind == "scribble":
            args.append("scribbled")
            args.insert(0, "first")
            if ctx is not None:
                ctx.env["A"] = "scribbled"
                ctx.env["NEW"] = "x"
                ctx.env.pop("B", None)
                ctx.stdin = "scribbled"
            return text
        if kind == "cd":
            self.vfs.cd("/e" if does["n"] % 2 else "/d")
            return text
        if kind == "write":
            self.vfs.append_file("/log", f"{len(args)};")
            return text
        if kind == "nested":
            res = self.shell.exec(f"Z=inner nested{does['n'] % 2} 1")
            return text + ("!" if res.exit_code else "?")
        if kind == "register":
            self.shell.register_command("made", lambda a: "made here")
            return text
        return "<" + (ctx.stdin if ctx is not None else "") + ">"

    def predict(self, reg, args, stdin, state):
        """-> (stdout, stderr, exit code); a stderr of None stands for some message."""
        does = reg["does"]
        kind, text = does["k"], does["text"]
        if kind == "result":
            return text, does["err"], 0
        if kind == "none":
            return "", "", 0
        if kind == "value":
            return VALUES[does["value"]][1], "", 0
        if kind == "raise":
            return "", None, 1
        if kind == "fail":
            return text, does["err"] or "bad", does["code"]
        if kind == "cd":
            state["cwd"] = "/e" if does["n"] % 2 else "/d"
        elif kind == "write":
            state["files"]["/log"] += f"{len(args)};"
        elif kind == "nested":
            return text + "!", "", 0
        elif kind == "register":
            state["extra"] += 1
            state["handlers"]["made"] = (-1, {"does": {"k": "text", "text": "made here"}, "doc": ""})
        elif kind == "stdin":
            return "<" + ("" if reg["shape"] in ("args", "object1") else stdin) + ">", "", 0
        return text, "", 0

    def catalogue(self, shell, other, builtins, handlers, docs, what):
        want = sorted(builtins | set(handlers))
        require(shell.available_commands() == want, f"{what}: available commands are",
                sut.short(shell.available_commands()), sut.short(want))
        require(other.available_commands() == sorted(builtins), f"{what}: another shell now has",
                sut.short(other.available_commands()))
        if "help" in handlers:
            return
        res = sut.sh(shell, "help")
        require(res.exit_code == 0, f"{what}: help failed", repr(res))
        shown = {}
        for ln in res.stdout.split("\n"):
            if ln.startswith("  "):
                name, _, doc = ln.strip().partition(" - ")
                require(name not in shown, f"{what}: help lists {name} twice")
                shown[name] = doc
        require(sorted(shown) == want, f"{what}: help lists", sut.short(sorted(shown)), sut.short(want))
        for name, doc in docs.items():
            if doc is not None:
                require(shown[name] == doc, f"{what}: help says {shown[name]!r} about {name}, not {doc!r}")


CHECK = C30()

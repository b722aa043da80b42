"""C17: only allow-listed commands ever run."""
from pbt import sut
from pbt.audit import Watch
from pbt.core import Check, require
from sandfs.shell import CommandResult

CUSTOM = ["c", "c1", "c11", "C1", "my-cmd", "wc"]  # wc replaces the built-in
BUILTIN = ["write", "touch", "mkdir", "rm", "cat", "echo", "cp", "mv", "append", "python", "python3",
           "cd", "pwd", "rg", "grep", "ls", "help", "printf", "stat", "find", "head", "tail", "search",
           "tree"]
HOST = ["true", "false", "seq", "basename", "sh", "bash", "host"]
FOREIGN = ["nosuch", "/bin/true", "TRUE", "./c1", "c1.", "c1 ", "ec", "echo2", "Cat", "wr", "-"]
ARGS = {
    "write": ["/w1 one", "/d/w2 two", "/f.txt gone"], "touch": ["/t1", "/d/t2"],
    "mkdir": ["/k1", "-p /k2/k3"], "rm": ["/f.txt", "-r /d"], "cat": ["/f.txt", "", "/d/g", "/no"],
    "echo": ["hello", "-n x"], "cp": ["/f.txt /c1f", "-r /d /dd"], "mv": ["/f.txt /mf", "/d /md"],
    "append": ["/f.txt more"], "python": ["\"vfs.write_file('/py','x')\"", "'print(7)'"],
    "python3": ["\"vfs.write_file('/py3','x')\""], "cd": ["/d", "/"], "pwd": [""],
    "rg": ["e /d", "o"], "grep": ["e /f.txt", "o"], "ls": ["", "/d", "-l"], "help": [""],
    "printf": ["abc", "'%s' v"], "stat": ["/no"], "find": ["/d"], "head": ["-n 1 /f.txt", "-n 1"],
    "tail": ["-n 1"], "search": ["e /d"], "tree": ["/d"], "true": [""], "false": [""],
    "seq": ["2"], "basename": ["a/b"], "sh": ["-c 'echo $V'", "-c 'exit 4'"],
    "bash": ["-c 'echo hi'"], "host": ["seq 1"],
}


def written(name, how, b):
    """Different ways of writing a command name."""
    if how in ("plain", "slash" if " " in name else "") or not name:
        return name if " " not in name else f"'{name}'"
    if how == "single":
        return f"'{name}'"
    if how == "double":
        return f'"{name}"'
    if how == "split":
        i = b.below(len(name) + 1)
        return f"'{name[:i]}'\"{name[i:]}\""
    if how == "slash":
        i = b.below(len(name))
        return name[:i] + "\\" + name[i:]
    raise AssertionError(how)


class C17(Check):
    id = "C17"
    rule = """programs of several lines and pipelines whose commands are custom recorders,
    built-ins with visible effects, host programs and unknown names, written plainly, quoted,
    escaped or through variables, with assignments and redirections, in shells with random
    allow-lists (empty, lists, sets, generators) with and without host fallback; compared with
    an unrestricted twin that runs the program up to the first unlisted command; process
    starts are watched; non-trivial: an unlisted command was reached after at least one
    listed command ran, or a program of 3 or more listed commands ran through"""
    quick, thorough = 24000, 350000
    max_ops, op_bytes, cfg_bytes, min_ops = 7, 48, 40, 1

    def decode(self, cfg, raw):
        fallback = cfg.chance(40)
        hosty = cfg.chance(15)
        pool = CUSTOM * 3 + BUILTIN + (HOST if hosty else ["true", "seq"] if fallback else [])
        kind = cfg.weighted([(1, "empty"), (5, "some"), (5, "most"), (1, "all")])
        everything = CUSTOM + BUILTIN + HOST + ["nosuch"]
        allow = [n for n in everything if kind == "all" or (kind == "some" and cfg.chance(45))
                 or (kind == "most" and cfg.chance(85))] if kind != "empty" else []
        lines = []
        for b in raw:
            cmds = []
            for _ in range(b.weighted([(4, 1), (4, 2), (2, 3)])):
                name = b.pick(pool) if b.chance(92) else b.pick(FOREIGN)
                if allow and b.chance(55):
                    listed = [n for n in allow if n in pool]
                    name = b.pick(listed) if listed else name
                how = b.weighted([(5, "plain"), (1, "single"), (1, "double"), (1, "split"),
                                  (1, "slash"), (2, "var"), (1, "brace")])
                args = b.pick(ARGS.get(name, ["a", "'x y'", "", "$V"]))
                cmds.append({"name": name, "how": how, "args": args,
                             "text": written(name, how if how not in ("var", "brace") else "plain", b),
                             "pre": b.pick(["", "", "", "Q=1 ", "Q='a b' Z= "]),
                             "redir": b.weighted([(8, ""), (1, " > /out1"), (1, " >> /f.txt"),
                                                  (1, " < /f.txt"), (1, " > /d/out2")])})
            lines.append(cmds if not b.chance(10) else "W=" + b.pick(["c1", "cat", "x"]))
        return {"allow": allow, "as": cfg.pick(["list", "set", "gen", "tuple"]), "lines": lines,
                "fallback": fallback, "limit": None}

    def make(self, case, restricted, log):
        vfs = sut.VirtualFileSystem()
        vfs.write_file("/f.txt", "one\ntwo e\n")
        vfs.write_file("/d/g", "three\n")
        allow = None
        if restricted:
            names = case["allow"]
            allow = {"list": list(names), "set": set(names), "tuple": tuple(names),
                     "gen": (n for n in names)}[case["as"]]
        env = {"V": "val"}
        for i, name in enumerate(CUSTOM + BUILTIN + HOST + FOREIGN):
            env[f"N{i}"] = name
        sh = sut.SandboxShell(vfs, allowed_commands=allow, host_fallback=case["fallback"], env=env)
        for name in CUSTOM:
            def rec(args, ctx, name=name):
                log.append((name, list(args), ctx.stdin, ctx.env.get("Q"), ctx.env.get("W")))
                if args[:1] == ["fail"]:
                    return CommandResult(stderr="asked to", exit_code=9)
                return f"<{name}>"
            sh.register_command(name, rec)
        return vfs, sh

    def text(self, cmd):
        names = CUSTOM + BUILTIN + HOST + FOREIGN
        word = cmd["text"]
        if cmd["how"] == "var":
            word = f"$N{names.index(cmd['name'])}"
        elif cmd["how"] == "brace":
            word = "${N%d}" % names.index(cmd["name"])
        return f"{cmd['pre']}{word} {cmd['args']}{cmd['redir']}"

    def run(self, case, env):
        log, twin_log = [], []
        vfs, sh = self.make(case, True, log)
        tvfs, twin = self.make(case, False, twin_log)
        known = set(CUSTOM) | set(BUILTIN) | {"sh", "bash", "host"}
        program, prefix, cut, ran = [], [], None, 0
        for line in case["lines"]:
            if isinstance(line, str):
                program.append(line)
                if cut is None:
                    prefix.append(line)
                continue
            program.append(" | ".join(self.text(c) for c in line))
            if cut is not None:
                continue
            good = []
            for c in line:
                if c["name"] not in case["allow"] or (
                        c["name"] not in known and not case["fallback"]):
                    cut = c["name"]
                    break
                good.append(self.text(c))
            ran += len(good)
            if good:
                prefix.append(" | ".join(good))
        with Watch() as watch:
            res = sut.sh(sh, "\n".join(program))
        with Watch() as twatch:
            twin_res = sut.sh(twin, "\n".join(prefix))
        what = f"allow={case['allow']} fallback={case['fallback']} program={program!r}"
        require(log == twin_log, f"{what}: custom commands ran as", log, twin_log)
        mine = [self.argv(p) for p in watch.processes()]
        wanted = [self.argv(p) for p in twatch.processes()]
        require(mine == wanted, f"{what}: host programs ran as", mine, wanted)
        sut.compare(sut.capture(vfs), sut.capture(tvfs), what)
        require(vfs.pwd() == tvfs.pwd(), f"{what}: current directory {vfs.pwd()}")
        if cut is None or twin_res.exit_code != 0:
            require(res == twin_res,
                    f"{what}: a listed command gave another result", repr(res), repr(twin_res))
        else:
            require(res.exit_code != 0 and res.stderr.strip(),
                    f"{what}: the unlisted command {cut!r} gave no error", repr(res))
            require(not res.stdout, f"{what}: output of the refused line", repr(res))
        env.label("cut" if cut is not None and twin_res.exit_code == 0 else "through",
                  *(["process"] if mine else []))
        done = twin_res.exit_code == 0
        return done and (ran >= 1 if cut is not None else ran >= 3)

    def argv(self, event):
        name, args = event
        return (name, [str(a) for a in args[1]] if name == "subprocess.Popen" else [])


CHECK = C17()

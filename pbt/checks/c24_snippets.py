"""C24: Python snippets are isolated from the host and from each other."""
import copy
import io
import os
import sys

from pbt import audit, gen, ops, sut
from pbt.core import Check, require
from pbt.model import Model, Refused
from pbt.sut import q
from sandfs import PythonExecutor

FREE = ["x", "y", "total", "helper", "_p", "café", "data"]
CURATED = {  # name -> an expression whose value is known
    "abs": ("abs(-3)", 3), "all": ("all((1, 0))", False), "any": ("any((1, 0))", True),
    "bool": ("bool(2)", True), "dict": ("dict(a=1)", {"a": 1}), "enumerate": ("list(enumerate('a'))", [(0, "a")]),
    "float": ("float('1.5')", 1.5), "int": ("int('7')", 7), "len": ("len('abc')", 3),
    "list": ("list('ab')", ["a", "b"]), "map": ("list(map(str, (1, 2)))", ["1", "2"]), "max": ("max(1, 5)", 5),
    "min": ("min(4, 2)", 2), "range": ("list(range(3))", [0, 1, 2]), "repr": ("repr('q')", "'q'"),
    "reversed": ("list(reversed('ab'))", ["b", "a"]), "round": ("round(2.6)", 3), "set": ("set('aa')", {"a"}),
    "sorted": ("sorted((3, 1))", [1, 3]), "str": ("str(5)", "5"), "sum": ("sum((1, 2, 3))", 6),
    "tuple": ("tuple('ab')", ("a", "b")), "zip": ("list(zip('a', 'b'))", [("a", "b")]),
}
FORBIDDEN = ["open", "eval", "exec", "compile", "__import__", "breakpoint"]
# Plain source using a forbidden facility; each would leave a mark on the host or print a secret.
HOSTILE = [
    "open({new!r}, 'w').write('x')", "print(open({secret!r}).read())",
    "import os\nos.mkdir({new!r})", "from os import mkdir\nmkdir({new!r})",
    "import os.path", "import sandfs", "import builtins\nprint(builtins.open({secret!r}).read())",
    "__import__('os').mkdir({new!r})", "__import__('os').system('echo x > ' + {new!r})",
    "eval('1 + 1')", "exec('leak = 1')", "compile('1', 'f', 'eval')",
    "__builtins__['open']({new!r}, 'w')", "__builtins__['__import__']('os')", "__builtins__['eval']('1')",
    "__builtins__.open({new!r}, 'w')", "breakpoint()", "from pathlib import Path\nPath({new!r}).touch()",
    "import importlib\nimportlib.import_module('os').mkdir({new!r})",
    "f = open\nf({new!r}, 'w')", "(lambda o=open: o({new!r}, 'w'))()",
    "def go():\n    import shutil\n    shutil.copy({secret!r}, {new!r})\ngo()",
    "print(list(open({secret!r})))", "with open({secret!r}) as fh:\n    print(fh.read())",
    "[__import__('sys') for _ in range(1)]", "import socket\nsocket.socket()", "exec(\"import os\")",
    "from sandfs import pyexec", "import sandfs.pyexec as p\np.PythonExecutor", "import sys\nsys.stdout = None",
]
PRINTS = ["hello", "", "\u00fcn\u00ef", "a\r\nb", "tab\t", "\U0001f600", "\r", "nul\x00", "x" * 200, "  ", "\\n", "'"]


class C24(Check):
    id = "C24"
    rule = """sequences of snippets (printing, binding, rebinding and deleting built-in and given
    names, functions, nested runs, sandbox reads and writes, uses of forbidden facilities,
    failures and syntax errors at any point) run by executors with extra built-ins and globals
    and by the python command, with the expected output, tree, names and failure computed
    separately and the host watched; non-trivial: a snippet that rebound or deleted a name or
    tried a forbidden facility was followed by at least one that used the same names"""
    quick, thorough = 28000, 400000
    max_ops, op_bytes, cfg_bytes, min_ops = 8, 40, 16, 1
    assumptions = ["snippets are plain source: walking the object graph (attributes of functions, "
                   "classes or of the sandbox object) is outside the claim"]

    def decode(self, cfg, raw):
        out = []
        for b in raw:
            st = []
            for _ in range(1 + b.below(4)):
                kind = b.weighted([(5, "print"), (4, "bind"), (4, "probe"), (4, "curated"), (4, "rebind"),
                                   (2, "unbind"), (4, "fs"), (3, "hostile"), (1, "fail"), (1, "nested"),
                                   (2, "given"), (1, "syntax"), (1, "caught")])
                st.append({"k": kind, "n": b.u8(), "v": b.u8(), "w": b.u8()})
            out.append({"by": b.weighted([(4, 0), (3, 1), (2, "sh")]), "st": st,
                        "extra": b.pick([None, None, {"given": 1}, {"given": [1, 2], "len": 5},
                                         {"__builtins__": {}, "given": "g"}, {"vfs": "mine"}])})
        return {"ops": out, "template": cfg.pick([None, {"tmpl": 7}, {"tmpl": {"k": 1}, "x": "tx"}]),
                "builtins": cfg.chance(50), "cr": cfg.chance(30)}

    def run(self, case, env):
        scratch = env.scratch()
        secret = os.path.join(scratch, "secret")
        with open(secret, "w") as fh:
            fh.write("s3cr3t\n")
        new = os.path.join(scratch, "new")
        worlds = []
        for i in range(2):
            vfs = sut.VirtualFileSystem()
            vfs.write_file("/f", f"file{i}")
            m = Model()
            m.write("/f", f"file{i}")
            template = copy.deepcopy(case["template"]) if i == 0 else None
            builtins = {"triple": lambda x: x * 3} if case["builtins"] and i == 0 else None
            if builtins:
                builtins["inner"] = lambda code: worlds[0]["ex"].run(code).stdout
            ex = PythonExecutor(vfs, builtins=builtins, globals_template=template)
            worlds.append({"vfs": vfs, "m": m, "ex": ex, "template": template, "builtins": builtins})
        shell = sut.SandboxShell(worlds[0]["vfs"])
        interesting = useful = False
        old = []
        for i, op in enumerate(case["ops"]):
            w = worlds[0 if op["by"] == "sh" else op["by"]]
            via_shell = op["by"] == "sh"
            extra = None if via_shell else copy.deepcopy(op["extra"])
            names = {"vfs": w["vfs"], "fs": w["vfs"]}
            if not via_shell:
                names.update(w["template"] or {})
                names.update(extra or {})
            names.pop("__builtins__", None)
            extra_bi = ({} if via_shell else dict(w["builtins"] or {}))
            kept = copy.deepcopy(w["m"])
            code, out, fails, odd = self.compose(op, w, names, extra_bi, new, secret, via_shell)
            if via_shell and not ops.shell_safe(code):
                w["m"] = kept
                continue
            what = f"step {i} ({op['by']}) {code!r}"
            passed = copy.deepcopy(extra)
            mine = Recorder()
            before, sys.stdout = sys.stdout, mine
            err = None
            seen = sorted(os.listdir(scratch))
            try:
                with audit.Watch() as watch:
                    try:
                        if via_shell:
                            res = shell.exec("python " + ("-c " if op["st"][0]["v"] & 1 else "") + q(code))
                            if res.exit_code:
                                err = res.stderr or "no message"
                            stdout = res.stdout
                        else:
                            r = w["ex"].run(code, extra_globals=extra)
                            stdout = r.stdout
                    except Exception as exc:
                        err = f"{type(exc).__name__}: {exc}"
                now = sys.stdout
            finally:
                sys.stdout = before
            require(now is mine, f"{what}: the process's standard output is not restored")
            require(mine.text == "", f"{what}: wrote to the process's standard output", mine.text)
            require(sorted(os.listdir(scratch)) == seen, f"{what}: touched the host")
            for event, args in watch.events:
                require(not event.startswith(audit.PROCESS + audit.NETWORK + ("os.mkdir", "os.remove", "shutil.")),
                        f"{what}: {event} {args}")
                if event == "open":
                    require(not str(args[0]).startswith(scratch), f"{what}: opened {args[0]}")
            require(fails == (err is not None), f"{what}: should have {'failed' if fails else 'succeeded'}: {err}")
            if err is None:
                require(stdout == out, f"{what}: printed", repr(stdout), repr(out))
                if not via_shell:
                    old.append((r, copy.copy(r.globals), what))
            require(extra == passed, f"{what}: changed the caller's names", repr(extra))
            for r, g, when in old:
                require(r.globals == g, f"{what}: changed the result of {when}")
            for k, world in enumerate(worlds):
                sut.compare(sut.capture(world["vfs"]), world["m"].state(), f"{what}: sandbox {k}")
                require(world["template"] == (case["template"] if k == 0 else None),
                        f"{what}: changed the caller's template")
                require(world["builtins"] is None or list(world["builtins"]) == ["triple", "inner"],
                        f"{what}: changed the caller's built-ins")
            kinds = {s["k"] for s in op["st"]}
            if interesting and kinds & {"probe", "curated", "given", "fs", "print"}:
                useful = True
            if odd:
                interesting = True
            env.label(*kinds, *(["failed"] if fails else []), *(["shell"] if via_shell else []))
        return useful

    def compose(self, op, w, names, extra_bi, new, secret, flat):
        """-> (source, expected output, fails, did something odd)."""
        lines, out, odd = [], [], False
        bi = dict.fromkeys(list(CURATED) + ["print"], True)
        bi.update(extra_bi)
        names = dict(names)
        ok = (lambda *ns: all(n in bi and n not in names and n not in spoiled for n in ns))
        spoiled = set()
        for s in op["st"]:
            k, n, v, x = s["k"], s["n"], s["v"], s["w"]
            fs = names.get("vfs") is w["vfs"]
            if k == "print":
                if not ok("print"):
                    continue
                text = PRINTS[n % len(PRINTS)]
                end = ["\n", "", "\r\n", "|"][v % 4]
                if v % 4 == 0:
                    lines.append(f"print({text!r}, {x})")
                    out.append(f"{text} {x}\n")
                else:
                    lines.append(f"print({text!r}, {x}, sep='-', end={end!r})")
                    out.append(f"{text}-{x}{end}")
            elif k == "bind":
                name = FREE[n % len(FREE)]
                odd = True
                if v % 3 == 0 and not flat:
                    lines.append(f"def {name}(a):\n    return a + {x}\n{name}_v = {name}(1)")
                    names[name] = names[name + "_v"] = 1
                elif v % 3 == 1 and ok("range"):
                    lines.append(f"{name} = [i for i in range({x % 5})]")
                    names[name] = 1
                else:
                    lines.append(f"{name} = {x}")
                    names[name] = x
            elif k == "probe":
                name = (FREE + FORBIDDEN + ["tmpl", "given", "triple", "vfs", "fs"])[n % (len(FREE) + 11)]
                there = name in names or name in bi
                if not ok("print"):
                    continue
                if flat:
                    lines.append(name)
                    if not there:
                        return "; ".join(lines), "", True, odd
                else:
                    lines.append(f"try:\n    {name}\n    print('yes {name}')\nexcept:\n    print('no {name}')")
                    out.append(f"{'yes' if there else 'no'} {name}\n")
            elif k == "curated":
                name = sorted(CURATED)[n % len(CURATED)]
                expr, value = CURATED[name]
                if not ok("print", name, "list", "str", "map"):
                    continue
                lines.append(f"print({expr} == {value!r})")
                out.append("True\n")
            elif k == "rebind":
                pool = sorted(CURATED) + ["print", "vfs", "fs", "tmpl", "given", "triple"] + FORBIDDEN[:1]
                name = pool[n % len(pool)]
                odd = True
                if v % 3 == 0:
                    lines.append(f"{name} = {x}")
                    names[name] = x
                elif v % 3 == 1:
                    lines.append(f"__builtins__[{name!r}] = {x}")
                    bi[name] = x
                    spoiled.add(name)
                elif not flat:
                    lines.append(f"def {name}(*a, **k):\n    return 'mine'")
                    names[name] = "fn"
            elif k == "unbind":
                odd = True
                if v % 4 == 0:
                    lines.append("__builtins__.clear()")
                    bi.clear()
                elif v % 4 == 1:
                    name = (sorted(CURATED) + ["print"])[n % (len(CURATED) + 1)]
                    lines.append(f"del __builtins__[{name!r}]")
                    if name not in bi:
                        return self.join(lines, flat), "", True, odd
                    del bi[name]
                elif v % 4 == 2:
                    name = ["vfs", "fs", "x", "tmpl"][n % 4]
                    lines.append(f"del {name}")
                    if name not in names:
                        return self.join(lines, flat), "", True, odd
                    del names[name]
                else:
                    lines.append("__builtins__.update({'open': 1, 'eval': 2, 'x': 3})")
                    bi.update(open=1, eval=2, x=3)
            elif k == "fs":
                if not fs:
                    continue
                p = ["/f", "/g", "/d/h", "/d"][n % 4]
                if v % 3 == 0:
                    if not ok("print"):
                        continue
                    lines.append(f"print(vfs.read_file({p!r}))")
                    call = (lambda: out.append(w["m"].read(p) + "\n"))
                elif v % 3 == 1:
                    lines.append(f"vfs.write_file({p!r}, {PRINTS[x % len(PRINTS)]!r})")
                    call = (lambda: w["m"].write(p, PRINTS[x % len(PRINTS)]))
                else:
                    lines.append(f"vfs.mkdir({p!r}, exist_ok=True)")
                    call = (lambda: w["m"].mkdir(p, False, True))
                if flat and not ops.shell_safe("; ".join(lines)):
                    lines.pop()
                    continue
                try:
                    call()
                except Refused:
                    return self.join(lines, flat), "", True, odd
            elif k == "hostile":
                if any(f in bi or f in names for f in FORBIDDEN):
                    continue
                src = HOSTILE[n % len(HOSTILE)].format(new=new, secret=secret)
                if flat and ("\n" in src and src.count("\n") > 1 or "def " in src or "with " in src):
                    continue
                lines.append(src.replace("\n", "; ") if flat else src)
                return self.join(lines, flat), "", True, True
            elif k == "fail":
                lines.append(["1 / 0", "undefined_name", "raise", "[][3]", "{}['k']", "'a' + 1",
                              "assert False"][n % 7])
                return self.join(lines, flat), "", True, odd
            elif k == "syntax":
                if n % 3:
                    continue
                # nothing of a snippet that does not compile runs: only valid as its first statement
                if not lines:
                    return "def (" if flat else "print('never')\nif:", "", True, odd
            elif k == "caught":
                if flat or not ok("print"):
                    continue
                src = HOSTILE[n % len(HOSTILE)].format(new=new, secret=secret)
                if any(f in bi or f in names for f in FORBIDDEN):
                    continue
                body = src.replace("\n", "\n    ")
                lines.append(f"try:\n    {body}\nexcept:\n    print('caught')")
                out.append("caught\n")
                for extra in ("f", "go", "fh"):
                    names[extra] = 1
                odd = True
            elif k == "given":
                if not ok("print"):
                    continue
                for name in ("tmpl", "given"):
                    if name in names and names[name] != "fn":
                        lines.append(f"print({name} == {names[name]!r})")
                        out.append("True\n")
            elif k == "nested":
                if flat or "triple" not in bi or "triple" in names or not ok("print"):
                    continue
                if v & 1 and ok("inner"):
                    body = ["y = 5; print('in')", "__builtins__.clear()", "len = 3", "1 / 0",
                            "print('in', end=''); __builtins__['len'] = 5"][n % 5]
                    if n % 5 == 3:
                        lines.append(f"try:\n    inner({body!r})\nexcept:\n    print('inner failed')")
                        out.append("inner failed\n")
                    else:
                        lines.append(f"print(inner({body!r}))")
                        out.append(["in\n\n", "\n", "\n", "", "in\n"][n % 5])
                    odd = True
                    continue
                lines.append(f"print(triple({x}))")
                out.append(f"{x * 3}\n" if bi["triple"] is not x and callable(bi["triple"]) else "")
                if not callable(bi["triple"]):
                    return self.join(lines, flat), "", True, odd
        if not lines:
            lines = ["pass"]
        return self.join(lines, flat), "".join(out), False, odd

    def join(self, lines, flat):
        return "; ".join(lines) if flat else "\n".join(lines) + "\n"


class Recorder(io.TextIOBase):
    def __init__(self):
        self.text = ""

    def write(self, text):
        self.text += text
        return len(text)


CHECK = C24()

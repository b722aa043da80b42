"""C23: export writes an exact, confined copy and changes nothing."""
import os
import tempfile

from pbt import audit, gen, ops, sut
from pbt.core import Check, require
from pbt.model import Model, policy
from pbt.sut import attempt
from sandfs import ProvidedNode
from sandfs.adapters import MemoryStorageAdapter

NAMES = ["a", "b", "c.txt", "a b", "\u00fc", "-r", "~", "#c", "\u65e5\u672c", "a'b", 'q"q', "a\\b", "...",
         ".hid", "a*", "$x", "[z]", "..a", "a..", " lead", "trail ", "new\nline", "e\u0301", "\u00e9", "CON",
         "tab\t", "x" * 80, "%s", "{0}"]
TEXTS = ["", "x", "line\n", "a\nb\n", "cr\r\nlf\r\n", "lone\rcr", "\u00fcn\u00ef\n", "\ufeffbom", "no end",
         "\n\n", "\U0001f600", "nul\x00x", "\x0c\x85\u2028", "needle " * 30, "\x1a", "\ufffd",
         "big\r\n" * 4000, "\r\n", "\x7f\x80\xff"]
HOSTILE = ["..", ".", "", "../out", "../../out", "a/b", "sub/../../x", "{abs}/evil", "../target-x/f",
           "..//x", "a/../..", "./x", "/"]
WRITES = ("os.mkdir", "os.remove", "os.rename", "os.symlink", "os.link", "os.chmod", "os.rmdir",
          "os.truncate", "shutil.", "os.chown", "os.utime")


def nodes(b, depth=0, hostile=False):
    out = {}
    for _ in range(1 + b.below(3)):
        name = b.pick(HOSTILE) if hostile and b.chance(45) else b.pick(NAMES)
        kind = b.weighted([(3, "file"), (3, "prov"), (3, "dir") if depth < 2 else (0, "dir")])
        n = {"kind": kind, "text": b.pick(TEXTS), "policy": b.pick([None, None, None, policy(w=False),
                                                                     policy(r=False), policy(ao=True)])}
        if kind == "dir":
            n["kids"] = nodes(b, depth + 1, hostile)
            n["lazy"] = b.chance(50)
        elif kind == "prov":
            n["fails"] = b.chance(18)
        out[name] = n
    return out


class C23(Check):
    id = "C23"
    rule = """trees with arbitrary names and contents, protected nodes, lazily provided
    directories and files, storage mounts and sometimes hostile provider names, exported to new,
    nested and existing directories or materialised (several scopes, nested, with edits on both
    sides, ended normally or by an error), compared byte by byte with the reference tree while
    all file operations of the process are watched; non-trivial: an export or materialisation of
    a directory with at least 3 nodes, one of them nested, was compared"""
    quick, thorough = 12000, 160000
    max_ops, op_bytes, cfg_bytes, min_ops = 5, 12, 200, 1
    assumptions = ["names are valid file names of the host once they are free of '/' and are not "
                   "'.' or '..'", "target directories hold no symbolic links"]

    def decode(self, cfg, raw):
        hostile = cfg.chance(25)
        case = {"setup": gen.setup_tree(cfg, NAMES, n=8, data=lambda b: b.pick(TEXTS)),
                "hostile": hostile,
                "prov": nodes(cfg, 0, hostile) if hostile or cfg.chance(50) else None,
                "store": {(cfg.pick(["../../up", "../x", "a//b", "/abs"]) if hostile and cfg.chance(50)
                           else "/".join(cfg.pick(NAMES) for _ in range(1 + cfg.below(2)))): cfg.pick(TEXTS)
                          for _ in range(cfg.below(4))},
                "prot": [{"p": cfg.u8(), "policy": cfg.pick([policy(w=False), policy(r=False), policy(ao=True)])}
                         for _ in range(cfg.below(3))],
                "cwd": cfg.u8()}
        case["ops"] = [{"how": b.weighted([(4, "export"), (3, "mat"), (2, "nest"), (1, "bad")]),
                        "src": b.u8(), "none": b.chance(20), "rel": b.chance(30),
                        "into": b.pick(["new", "deep", "there", "old", "over", "over"]),
                        "exc": b.pick([None, None, "ValueError", "SystemExit", "KeyboardInterrupt",
                                       "GeneratorExit"]),
                        "edit": b.below(4)} for b in raw]
        return case

    def run(self, case, env):
        scratch = env.scratch()
        vfs = sut.VirtualFileSystem()
        m = Model()
        ops.install(vfs, m, case["setup"])
        self.failing = False
        bad = case["hostile"]
        if case["store"]:
            entries = dict(case["store"])
            done, _ = attempt(vfs.mount_storage, "/store", MemoryStorageAdapter(entries))
            if not bad:
                clash = any(o.startswith(k + "/") for k in entries for o in entries)
                if clash or m.find("/store") is not None:
                    return False
                require(done, "mounting a store failed")
                m.mkdir("/store")
                for k, v in case["store"].items():
                    for i in range(1, k.count("/") + 1):
                        m.mkdir("/store/" + "/".join(k.split("/")[:i]), True, True)
                    m.write("/store/" + k, v)
        if case["prov"] is not None:
            spec = case["prov"]
            vfs.mount_directory("/prov", lambda ctx: self.build(spec, scratch))
            if not bad:
                m.mkdir("/prov")
                self.graft(m, "/prov", spec)
        if not bad:
            for pr in case["prot"]:
                node = m.find(m.paths()[pr["p"] % len(m.paths())])
                if not node.path().startswith("/prov"):
                    node.policy = dict(pr["policy"]) if not node.is_dir else policy(w=False)
                    vfs.set_policy(node.path(), sut.pol(node.policy))
        hits = 0
        for i, op in enumerate(case["ops"]):
            hits += self.step(vfs, m, op, case, scratch, f"step {i} {op}", env, i)
        return hits > 0

    def build(self, spec, scratch):
        out = {}
        for name, n in spec.items():
            pol = sut.pol(n["policy"]) if n["policy"] else None
            name = name.replace("{abs}", scratch)
            if n["kind"] == "file":
                out[name] = ProvidedNode.file(content=n["text"], policy=pol)
            elif n["kind"] == "prov":
                out[name] = ProvidedNode.file(content_provider=provider(n), policy=pol)
            elif n["lazy"]:
                out[name] = ProvidedNode.directory(
                    directory_provider=lambda ctx, k=n["kids"]: self.build(k, scratch))
            else:
                out[name] = ProvidedNode.directory(children=self.build(n["kids"], scratch))
        return out

    def graft(self, m, at, spec):
        for name, n in spec.items():
            p = f"{at}/{name}"
            if n["kind"] == "dir":
                m.mkdir(p)
                self.graft(m, p, n["kids"])
            else:
                m.write(p, n["text"])
                if n.get("fails"):
                    m.find(p).content = {"failing": True}

    def step(self, vfs, m, op, case, scratch, what, env, i):
        hostile = case["hostile"]
        outer = os.path.join(scratch, f"outer{i}")
        os.makedirs(os.path.join(outer, "target-x"))
        target = os.path.join(outer, "target")
        for p in ("out", "target-x/f", "decoy"):
            with open(os.path.join(outer, p), "w") as fh:
                fh.write("decoy")
        if op["into"] == "deep":
            target = os.path.join(target, "x", "y z")
        elif op["into"] in ("there", "old", "over"):
            os.mkdir(target)
        extra = {}
        if op["into"] == "old":
            extra = {"old file": b"old\r\n"}
            with open(os.path.join(target, "old file"), "wb") as fh:
                fh.write(extra["old file"])
        if hostile:
            dirs = ["/", "/prov", "/", "/store", "/prov"]
            src = dirs[op["src"] % len(dirs)]
            vfs.cd("/")
            cwd = "/"
        else:
            dirs = [n.path() for n in m.root.walk() if n.is_dir]
            src = dirs[op["src"] % len(dirs)]
            cwd = dirs[(op["src"] + case["cwd"]) % len(dirs)]
            vfs.cd(cwd)
            m.cd(cwd)
        if op["how"] == "bad":
            files = ["/nope", "/a/nope/x"] + ([] if hostile else sorted(m.files()))
            src = files[op["src"] % len(files)]
        arg = src
        if op["none"] and op["how"] != "bad":
            arg, src = None, cwd
        elif op["rel"] and not hostile:
            arg = ops.relative(src, m)
        want = None if hostile or op["how"] == "bad" else disk_of(m, src)
        fails = want is not None and any(isinstance(v, dict) for v in want.values())
        if want and op["into"] == "over" and not fails:
            self.litter(target, want, op["edit"])
        before = None if hostile or fails else sut.capture(vfs, times=True) if op["edit"] & 1 else None
        tmp = tempfile.gettempdir()
        there = listing(tmp, outer, target)
        with audit.Watch() as watch:
            if op["how"] in ("export", "bad"):
                done, got = attempt(vfs.export_to_path, mk(target, op), source=arg)
                if done:
                    require(os.path.realpath(str(got)) == os.path.realpath(target),
                            f"{what}: returned {got}")
                    found = {k: v for k, v in read_disk(target).items() if k not in extra} \
                        if want is not None else None
                    for k, v in extra.items():
                        with open(os.path.join(target, k), "rb") as fh:
                            require(fh.read() == v or (want is not None and k in want),
                                    f"{what}: changed {k}")
            else:
                done, found = self.scope(vfs, op, arg, want, what)
        self.confined(watch, [outer if op["how"] not in ("export", "bad") else target, tmp],
                      target, tmp, outer, what, op)
        require(listing(tmp, outer, target) == there, f"{what}: something outside the target changed",
                changed(there, listing(tmp, outer, target)))
        if op["how"] == "bad":
            require(not done, f"{what}: exported {src}, which is no directory")
            env.label("refused")
            return 0
        if hostile:
            env.label("hostile")
            return 0
        if fails:
            require(not done, f"{what}: exported {src} although a provider fails")
            env.label("failing provider")
            return 0
        require(done, f"{what}: refused to export {src}", repr(got) if op["how"] == "export" else "")
        diff(found, want, f"{what} of {src}")
        got = sut.capture(vfs, times=True)
        if before is not None:
            sut.compare(got, before, f"{what}: the sandbox after exporting")
        require(vfs.pwd() == cwd, f"{what}: moved to {vfs.pwd()}")
        st = m.state()
        for p, rec in got.items():
            require(p in st and st[p]["content"] == (rec["content"] if not isinstance(
                rec["content"], dict) else st[p]["content"]), f"{what}: {p} changed in the sandbox")
        require(set(st) == set(got), f"{what}: the sandbox's paths changed")
        env.label(op["how"], op["into"])
        return len(want) >= 3 and any("/" in k for k in want)

    def litter(self, target, want, n):
        """Files that are already there with the same size, longer or shorter."""
        for k, (rel, data) in enumerate(sorted(want.items())):
            if data is None or (k + n) % 4 == 3:
                continue
            p = os.path.join(target, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write([bytes(x ^ 1 for x in data), data + b"tail", b"o"][(k + n) % 4])

    def scope(self, vfs, op, arg, want, what):
        """Materialise; -> (done, disk as first seen)."""
        seen = None
        root = inner = None
        raised = None
        try:
            with vfs.materialize(arg) as root:
                require(os.path.isdir(root), f"{what}: no directory at {root}")
                seen = read_disk(str(root)) if want is not None else {}
                if op["how"] == "nest":
                    with vfs.materialize(arg) as inner:
                        require(str(inner) != str(root), f"{what}: the same directory twice")
                        if want is not None:
                            diff(read_disk(str(inner)), seen, f"{what} nested")
                        self.edit(str(inner))
                    require(not os.path.exists(inner), f"{what}: {inner} is left")
                    if want is not None:
                        diff(read_disk(str(root)), seen, f"{what} after an inner scope")
                if op["edit"] & 2:
                    self.edit(str(root))
                if op["exc"]:
                    raise {"ValueError": ValueError, "SystemExit": SystemExit, "GeneratorExit":
                           GeneratorExit, "KeyboardInterrupt": KeyboardInterrupt}[op["exc"]]("mine")
        except sut.SandboxError:
            return False, None
        except (ValueError, SystemExit, KeyboardInterrupt, GeneratorExit) as exc:
            raised = type(exc).__name__
        require(raised == op["exc"], f"{what}: the scope raised {raised}")
        for d in (root, inner):
            require(d is None or not os.path.lexists(d), f"{what}: {d} is left")
        return True, seen

    def edit(self, root):
        for name in sorted(os.listdir(root))[:1]:
            p = os.path.join(root, name)
            if os.path.isfile(p):
                os.remove(p)
        with open(os.path.join(root, "brand new"), "w") as fh:
            fh.write("x")
        os.mkdir(os.path.join(root, "brand new dir"))

    def confined(self, watch, roots, target, tmp, outer, what, op):
        roots = [os.path.realpath(target)] if op["how"] in ("export", "bad") else [os.path.realpath(tmp)]
        above = []  # creating missing parents of the target is part of the job
        p = os.path.realpath(target)
        while len(p) > len(os.path.realpath(outer)):
            above.append(p)
            p = os.path.dirname(p)
        for event, args in watch.events:
            if event == "open":
                path, mode, flags = args[0], args[1], args[2]
                if not (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                    continue
                paths = [path]
            elif event.startswith(WRITES):
                paths = [a for a in args[:2 if event in ("os.rename", "os.link", "os.symlink") else 1]]
            elif event.startswith(audit.PROCESS + audit.NETWORK):
                require(False, f"{what}: {event} {args}")
            else:
                continue
            for path in paths:
                if not isinstance(path, (str, bytes, os.PathLike)):
                    continue
                path = os.fsdecode(path)
                if not os.path.isabs(path) and event != "open" and op["how"] not in ("export", "bad"):
                    continue  # removal relative to an open directory
                if not os.path.isabs(path) and event == "os.rmdir":
                    continue
                real = os.path.join(os.path.realpath(os.path.dirname(path) or "."),
                                    os.path.basename(path))
                real = os.path.normpath(real)
                require(any(real == r or real.startswith(r + "/") for r in roots) or real in above,
                        f"{what}: {event} on {path}, outside the target")


def provider(n):
    def provide(ctx):
        if n["fails"]:
            raise RuntimeError("down")
        return n["text"]
    return provide


def mk(target, op):
    import pathlib
    return pathlib.Path(target)


def disk_of(m, src):
    """Relative path -> bytes, None for a directory, a dict for a failing provider."""
    out = {}
    for n in m.find(src).walk():
        p = n.path()[len(src) if src != "/" else 0:].strip("/") if n.path() != src else None
        if p is not None:
            out[p] = None if n.is_dir else n.content if isinstance(n.content, dict) \
                else n.content.encode("utf-8")
    return out


def read_disk(root):
    out = {}
    for base, dirs, files in os.walk(root):
        for d in dirs:
            p = os.path.join(base, d)
            out[os.path.relpath(p, root)] = None if not os.path.islink(p) else b"<link>"
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read() if not os.path.islink(p) else b"<link>"
    return out


def diff(got, want, what):
    require(set(got) == set(want), f"{what}: unexpected {sorted(set(got) - set(want))[:5]}, missing "
            f"{sorted(set(want) - set(got))[:5]}")
    for k in want:
        require(got[k] == want[k], f"{what}: {k!r} is {sut.short(got[k])}, expected {sut.short(want[k])}")


def listing(tmp, outer, target):
    """Everything below the worker's temporary directory but the target."""
    out = {}
    top = os.path.join(outer, "target")
    for base, dirs, files in os.walk(tmp):
        if base == tmp:
            dirs[:] = [d for d in dirs if d != "pyc"]
            files = [f for f in files if not f.startswith("result.json")]
        dirs[:] = [d for d in dirs if os.path.join(base, d) != top]
        for x in dirs + files:
            p = os.path.join(base, x)
            st = os.lstat(p)
            out[p] = (st.st_mode, st.st_size if os.path.isfile(p) else 0)
    return out


def changed(a, b):
    return sorted(set(a.items()) ^ set(b.items()))[:6]


CHECK = C23()

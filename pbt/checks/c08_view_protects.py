"""C08: a restricted shell modifies nothing its view hides; visible nodes behave as usual."""
from pbt import lazy, ops, sut, views
from pbt.core import Check, require
from pbt.model import Partial, Refused
from pbt.sut import q

CMDS = [(4, "write"), (2, "write --append"), (3, "append"), (4, ">"), (3, ">>"), (3, "touch"),
        (2, "mkdir"), (2, "mkdir -p"), (4, "rm"), (5, "rm -r"), (5, "cp"), (5, "cp -r"), (8, "mv"),
        (2, "rm glob"), (2, "rm -r glob"), (2, "rm multi"), (1, "touch multi"),
        (2, "label"), (2, "cd"), (1, "pipe >"), (1, "rm -rf *")]


class C08(Check):
    id = "C08"
    rule = """labelled trees and random views as in C07; random modifying commands (write,
    append, redirections, touch, mkdir, rm, cp, mv, globs, several operands) from any
    visible current directory, labels changing meanwhile; every node the view hides must
    keep path, kind, content, version, policy and metadata, and a command all of whose
    operands (and nodes below them) are visible must end as in the unrestricted model;
    non-trivial: a command aimed at a hidden node (or a directory holding one), and a
    command on visible nodes succeeded"""
    quick, thorough = 22000, 300000
    max_ops, op_bytes, cfg_bytes = 26, 12, 160
    assumptions = ["python, host, bash and sh are escape hatches of a view",
                   "a directory that fails only the metadata filter does not count as hidden",
                   "adding entries inside hidden directories is not covered"]

    def decode(self, cfg, raw):
        bits = lazy.choose(cfg)
        nodes = views.decode_tree(cfg, 5 + cfg.below(9))
        for n in nodes:
            n["r"] = True
        view = views.decode_view(cfg, ["/"] + views.node_paths(nodes))
        out = []
        for b in raw:
            cmd = b.weighted(CMDS)
            out.append({"cmd": cmd, "n": b.u8(), "n2": b.u8(), "new": b.chance(35),
                        "new2": b.chance(55), "rel": b.chance(30), "name": b.below(4),
                        "cls": b.pick(views.CLASSES), "pr": b.pick([[], [], ["alice"], ["carol"]])})
        return {"nodes": nodes, "lazy": bits, "view": view, "ops": out}

    def run(self, case, env):
        v = case["view"]
        vfs = sut.VirtualFileSystem()
        m = views.build(vfs, case["nodes"], case["lazy"])
        shell = sut.SandboxShell(vfs, view=views.make_view(v))
        aimed = worked = 0
        if not case["lazy"]:
            m.adopt(sut.capture(vfs))
        for i, op in enumerate(case["ops"]):
            what = f"step {i} {op} view {v}"
            target, dest = self.pick(m, op["n"], op["new"], op["name"]), \
                self.pick(m, op["n2"], op["new2"], op["name"])
            cmd = op["cmd"]
            if cmd == "label":
                node = m.find(target)
                if node is not None:
                    node.policy = dict(node.policy, cls=op["cls"], pr=op["pr"])
                    vfs.set_policy(target, sut.pol(node.policy))
                continue
            hidden = {n.path(): n for n in m.root.walk() if not views.nameable(v, n)}
            before = m.state() if case["lazy"] and i == 0 else sut.capture(vfs)
            line, visible, model = self.plan(m, v, cmd, target, dest, op)
            cwd = vfs.pwd()
            res = sut.sh(shell, line)
            after = sut.capture(vfs)
            for path in hidden:
                require(path in after, f"{what}: {line!r} (in {cwd}) took away the hidden {path!r}",
                        repr(res))
                require(after[path] == before[path], f"{what}: {line!r} changed the hidden "
                        f"{path!r}", sut.short(before[path]), sut.short(after[path]))
            node = m.find(target)
            if node is not None and any(not views.nameable(v, x) for x in node.walk()):
                aimed += 1
                env.label("aimed-" + cmd)
            if visible and model is not None:
                want = "ok"
                try:
                    model()
                except Refused as exc:
                    want = f"refusal ({exc})"
                except Partial:
                    want = None
                if want is not None:
                    require((res.exit_code == 0) == (want == "ok"),
                            f"{what}: {line!r} (in {cwd}), expected {want}", repr(res))
                    sut.compare(after, m.state(), f"{what}: {line!r}", versions=False)
                    sut.adopt_versions(m, after)
                    require(vfs.pwd() == m.pwd() or m.cwd_lost(), f"{what}: {line!r} moved the shell")
                    if want == "ok" and cmd != "cd":
                        worked += 1
                        env.label("worked-" + cmd)
                    if m.cwd_lost():
                        ops.home(vfs, m)
                    continue
            here = vfs.pwd() if vfs.is_dir(vfs.pwd()) else "/"
            m.adopt(after, here)
            if here != vfs.pwd():
                ops.home(vfs, m)
        return aimed >= 1 and worked >= 1

    def pick(self, m, n, new, name):
        if not new:
            paths = m.paths()
            return paths[n % len(paths)]
        dirs = [x.path() for x in m.root.walk() if x.is_dir]
        base = dirs[n % len(dirs)]
        if base.count("/") > 6:
            base = "/"
        return (base if base != "/" else "") + "/" + ["q1", "q2", "q1/q2", "n00"][name]

    def plan(self, m, v, cmd, p, dest, op):
        """-> (command line, are all operands visible, what the model does or None)"""
        word = q(ops.relative(p, m) if op["rel"] else p)
        dword = q(ops.relative(dest, m) if op["rel"] else dest)
        clear = self.clear(m, v, p)
        whole = clear and (m.find(p) is None or all(views.nameable(v, x) for x in m.find(p).walk()))
        if cmd in ("write", "write --append", "append", ">", ">>", "pipe >"):
            app = cmd in ("write --append", "append", ">>")
            data = "payload" + ("\n" if cmd in (">", ">>", "pipe >") else "")
            line = {"write": f"write {word} payload", "write --append":
                    f"write {word} --append --text payload", "append": f"append {word} payload",
                    ">": f"echo payload > {word}", ">>": f"echo payload >> {word}",
                    "pipe >": f"echo payload | cat > {word}"}[cmd]
            return line, clear, lambda: m.write(p, data, append=app)
        if cmd == "touch":
            return f"touch {word}", clear, lambda: m.touch(p)
        if cmd in ("mkdir", "mkdir -p"):
            deep = cmd == "mkdir -p"
            return f"{cmd} {word}", clear, lambda: m.mkdir(p, deep, deep)
        if cmd in ("rm", "rm -r"):
            return f"{cmd} {word}", whole, lambda: m.remove(p, cmd == "rm -r")
        if cmd in ("cp", "cp -r", "mv"):
            ok = whole and self.clear(m, v, dest)
            node, spot = m.find(p), m.find(dest)
            if node is not None and spot is not None and spot.is_dir:
                # what would be created or clashed with inside the destination
                ok = ok and self.clear(m, v, (dest if dest != "/" else "") + "/" + node.name)
            run = (lambda: m.move(p, dest)) if cmd == "mv" else (
                lambda: m.copy(p, dest, cmd == "cp -r"))
            return f"{cmd} {word} {dword}", ok, run
        if cmd == "cd":
            return f"cd {word}", clear, lambda: m.cd(p)
        if cmd.endswith("glob"):
            base = p if m.find(p) is not None and m.find(p).is_dir else "/"
            pat = (base if base != "/" else "") + "/" + ["*", "n*", "*/*", "?0*"][op["name"]]
            return f"{cmd[:-5]} {sut.qglob(pat)}", False, None
        if cmd == "rm -rf *":
            return "rm -rf *", False, None
        return f"{cmd.split()[0]} {word} {dword}", False, None

    def clear(self, m, v, p):
        """The named node (or the place where it would be created) is visible."""
        if not views.prefix_ok(v, p):
            return False
        node = m.find(p)
        if node is not None:
            return views.nameable(v, node)
        top, rest = m.deepest(p)
        return views.nameable(v, top)


CHECK = C08()

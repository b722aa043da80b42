"""C28: all ways of enumerating the tree agree."""
from pbt import gen, ops, sut
from pbt.core import Check, require
from pbt.model import Model, policy
from pbt.sut import attempt, q
from sandfs import MemoryStorageAdapter, ProvidedNode

POOLS = [["a", "b", "c"], ["a", "aa", "a.", "a-b", "ab", "a_", "A", "B", "10", "9"],
         ["a b", "\u00fc", "x.txt", ".hid", "-r", "~", "#c", "\u65e5\u672c", "a'b", "a\\b", "...", " lead",
          "e\u0301", "\u00e9", "Z", "a"],
         ["[z]", "z", "a", "?", "*", "[!a]", "a]"]]


class C28(Check):
    id = "C28"
    rule = """histories of tree operations, lazily provided directories, storage mounts, policies,
    snapshots and restores; then, from a random starting directory (given absolutely, relatively
    or as the current one), walk, file iteration, recursive listing by the API and by ls -l, the
    rendered tree, find with and without type, globbing level by level and a snapshot are
    compared with each other and the reference tree, and paths that are not enumerated are
    probed; non-trivial: at least 6 nodes, 2 directories below the start and an operation that
    moved, copied, removed or restored"""
    quick, thorough = 9000, 130000
    max_ops, op_bytes, cfg_bytes, min_ops = 22, 16, 60, 5
    assumptions = ["every node is readable and visible (C06 and C07 treat the others)"]

    def decode(self, cfg, raw):
        pool = cfg.pick(POOLS)
        case = {"setup": gen.setup_tree(cfg, pool, n=7), "pool": pool,
                "prov": {cfg.pick(pool): {"dir": cfg.chance(40), "kids": [cfg.pick(pool) for _ in range(2)]}
                         for _ in range(cfg.below(4))} if cfg.chance(60) else None,
                "store": ["/".join(cfg.pick(pool) for _ in range(1 + cfg.below(2))) for _ in range(cfg.below(4))]
                if cfg.chance(30) else [],
                "fresh": cfg.chance(60), "starts": [[cfg.u8(), cfg.u8(), cfg.below(3), cfg.u8()] for _ in range(4)]}
        table = gen.TREE_OPS + [(1, "snap"), (1, "restore"), (1, "protect")]
        out = []
        for b in raw:
            kind = b.weighted(table)
            if kind in ("snap", "restore", "protect"):
                out.append({"op": kind, "n": b.u8()})
            else:
                out.append(gen.tree_op(b, [(1, kind)], pool))
        case["ops"] = out
        return case

    def run(self, case, env):
        vfs, m = sut.VirtualFileSystem(), Model()
        shell = sut.SandboxShell(vfs)
        ops.install(vfs, m, case["setup"])
        keys = [k for k in dict.fromkeys(case["store"]) if not any(
            o.startswith(k + "/") for o in case["store"])]
        if keys and m.find("/st") is None:
            vfs.mount_storage("/st", MemoryStorageAdapter({k: k for k in keys}))
            m.mkdir("/st")
            for k in keys:
                for i in range(1, k.count("/") + 1):
                    m.mkdir("/st/" + "/".join(k.split("/")[:i]), True, True)
                m.write("/st/" + k, k)
                m.find("/st/" + k).version = 0
        if case["prov"]:
            spec = case["prov"]
            vfs.mount_directory("/pv", lambda ctx: {
                k: ProvidedNode.directory(directory_provider=lambda c, n=n: {
                    x: ProvidedNode.file(content_provider=lambda c2, x=x: x) for x in n["kids"]})
                if n["dir"] else ProvidedNode.file(content=k) for k, n in spec.items()})
            m.mkdir("/pv")
            for k, n in spec.items():
                if n["dir"]:
                    m.mkdir(f"/pv/{k}")
                    for x in dict.fromkeys(n["kids"]):
                        m.write(f"/pv/{k}/{x}", x)
                else:
                    m.write(f"/pv/{k}", k)
        if case["fresh"]:
            self.agree(vfs, shell, m, [0, 0] + case["starts"][3][2:], "at first", case, env)
        moved = 0
        snaps = []
        gone, restored = set(), False
        for i, op in enumerate(case["ops"]):
            kind = op["op"]
            if kind == "snap":
                snaps.append((vfs.snapshot(), sut.capture(vfs)))
            elif kind == "restore":
                if snaps:
                    snap, state = snaps[op["n"] % len(snaps)]
                    vfs.restore(snap)
                    m.adopt(state, "/")
                    vfs.cd("/")
                    moved += 1
                    restored = True
            elif kind == "protect":
                p = m.paths()[op["n"] % len(m.paths())]
                m.find(p).policy = policy(w=False)
                vfs.set_policy(p, sut.pol(policy(w=False)))
            else:
                before = set(m.paths())
                if case["store"] and restored:  # the store did not go back: C10 judges conflicts
                    ops.api_call(vfs, op, gen.resolve(op["p"], m),
                                 gen.resolve(op["to"], m) if "to" in op else None)
                    got = "partial"
                else:
                    got = ops.play_both(vfs, None, m, op)
                moved += got == "ok" and kind in ("mv", "cp", "rm")
                if got == "partial":
                    state = sut.capture(vfs)
                    m.adopt(state, "/")
                    vfs.cd("/")
                gone |= before - set(m.paths())
            ops.settle(vfs, m)
            for n in m.root.walk():
                if n.version is None:
                    n.version = vfs.get_node(n.path()).version
            if i % 7 == 0:  # compare in between as well: nothing may be put right by looking once
                self.agree(vfs, shell, m, case["starts"][i % 3], f"after step {i} {op}", case, env)
        small = 0
        for s in case["starts"]:
            small = max(small, self.agree(vfs, shell, m, s, "in the end", case, env))
        for p in gone - set(m.paths()):
            require(not vfs.exists(p) and not vfs.is_file(p) and not vfs.is_dir(p)
                    and not attempt(vfs.get_node, p)[0], f"{p!r} is gone but still resolves")
        return small and moved

    def agree(self, vfs, shell, m, start, what, case, env):
        dirs = [n.path() for n in m.root.walk() if n.is_dir]
        top, cwd = dirs[start[0] % len(dirs)], dirs[start[1] % len(dirs)]
        vfs.cd(cwd)
        m.cd(cwd)
        arg = [top, ops.relative(top, m), None][start[2]]
        if arg is None:
            top = cwd
        what = f"{what}, from {arg!r} in {cwd!r}"
        nodes = {n.path(): n for n in m.find(top).walk()}
        want = {p: n.is_dir for p, n in nodes.items()}
        files = {p for p, d in want.items() if not d}
        below = {p: d for p, d in want.items() if p != top}

        def same(got, wanted, how):
            got = list(got)
            require(len(got) == len(set(got)), f"{what}: {how} repeats", repr(sorted(
                x for x in set(got) if got.count(x) > 1)))
            got, wanted = set(got), set(wanted)
            require(got == wanted, f"{what}: {how}", f"unexpected {sorted(got - wanted)[:6]}",
                    f"missing {sorted(wanted - got)[:6]}")

        order = list(self.in_order(nodes[top]))
        word = "" if arg is None else " " + q(arg)
        spoken = arg is None or ops.shell_safe(arg)

        def walk():
            walked = [(str(p), n) for p, n in vfs.walk(arg)]
            same([p for p, _ in walked], want, "walk")
            for p, n in walked:
                d = want[p]
                require(vfs.get_node(p) is n and vfs.exists(p) and str(n.path()) == p and vfs.is_dir(p) == d
                        and vfs.is_file(p) == (not d), f"{what}: {p!r} does not resolve to the node walked")
                if not d:
                    require(n.read(vfs) == nodes[p].content == vfs.read_file(p), f"{what}: content of {p!r}")

        def itered():
            found = [(str(p), n) for p, n in vfs.iter_files(arg)]
            same([p for p, _ in found], files, "iter_files")
            for p, n in found:
                require(n.read(vfs) == nodes[p].content, f"{what}: iter_files content of {p!r}")

        def flat():
            same([str(p) for p, _ in vfs.iter_files(arg, recursive=False)],
                 {p for p in files if parent(p) == top}, "iter_files without recursion")

        def listing():
            same(self.listed(vfs, arg, top, what), below.items(), "recursive listing")

        def tree():
            drawn = parse_tree(vfs.tree(arg), top, what)
            require(drawn == order, f"{what}: the rendered tree", *delta(drawn, order))

        def snapshot():
            snap = vfs.snapshot()
            same([(p, s.is_dir) for p, s in snap.nodes.items()
                  if p == top or top == "/" or p.startswith(top + "/")], want.items(), "snapshot")
            for p in want:
                require(snap.nodes[p].content == (None if want[p] else nodes[p].content),
                        f"{what}: snapshot content of {p!r}")

        # the shell's own enumerations
        def tree_command():
            res = sut.sh(shell, "tree" + word)
            require(res.exit_code == 0 and parse_tree(res.stdout, top, what) == order, f"{what}: tree command",
                    repr(res))
            env.label("shell")

        def find_command():
            for flag, wanted in (("", want), (" -type f", files), (" -type d", {p for p in want if want[p]})):
                res = sut.sh(shell, "find" + word + flag)
                require(res.exit_code == 0, f"{what}: find{flag}", repr(res))
                same(self.located(res.stdout, m), wanted, f"find{flag}")

        def ls_command():
            res = sut.sh(shell, "ls -l" + word)
            got = [(ln[2:], ln[0] == "d") for ln in res.stdout.split("\n") if ln]
            wanted = [(p, n.is_dir) for p, n in sorted(nodes.items(), key=lambda t: (not t[1].is_dir, t[1].name))
                      if p != top and parent(p) == top]
            require(got == wanted, f"{what}: ls -l", repr(got), repr(wanted))

        def glob():
            base = "" if top == "/" else top
            for depth in (3, 1, 2):
                level = [p for p in want if p != top and p[len(base):].count("/") == depth]
                pattern = base + "/*" * depth
                hits = vfs.glob(pattern)
                same(hits, level, f"glob {pattern!r}")
                if depth > 1:
                    require(hits == sorted(hits), f"{what}: glob {pattern!r} is not in order", repr(hits))
            vfs.cd(top)
            same(vfs.glob("*"), [p for p in below if parent(p) == top], "glob '*'")
            vfs.cd(cwd)

        def probe():
            for p in list(want)[-6:]:
                for extra in case["pool"][:4] + ["zz", "A"]:
                    path = (p if p != "/" else "") + "/" + extra
                    there = m.find(path) is not None
                    require(vfs.exists(path) == there and attempt(vfs.get_node, path)[0] == there,
                            f"{what}: {path!r} {'does not resolve' if there else 'resolves'}")
            for p, d in want.items():
                require(vfs.exists(p) and vfs.is_dir(p) == d and vfs.is_file(p) != d,
                        f"{what}: {p!r} does not resolve")

        parts = [walk, itered, flat, listing, tree, snapshot, probe]
        if spoken:
            parts += [tree_command, find_command, ls_command]
        if not any(c in top for c in "*?[]"):
            parts.append(glob)
        k = start[3] % len(parts)  # any of them may be the one that loads what is provided lazily
        for part in parts[k:] + parts[:k]:
            part()
        env.label(["absolute", "relative", "current"][start[2]])
        vfs.cd("/")
        m.cd("/")
        return len(want) >= 6 and sum(want.values()) >= 3

    def listed(self, vfs, arg, top, what):
        out = []

        def go(a, at):
            entries = vfs.ls(a)
            keys = [(not e.is_dir, e.name) for e in entries]
            require(keys == sorted(keys), f"{what}: ls of {at!r} is not in order", repr(keys))
            for e in entries:
                p = (at if at != "/" else "") + "/" + e.name
                require(str(e.path) == p, f"{what}: ls of {at!r} gives {e.name!r} the path {e.path}")
                out.append((p, e.is_dir))
                if e.is_dir:
                    go(p, p)
        go(arg, top)
        return out

    def in_order(self, node, depth=0):
        for kid in sorted(node.kids.values(), key=lambda k: (not k.is_dir, k.name)):
            yield depth, kid.name, kid.is_dir
            if kid.is_dir:
                yield from self.in_order(kid, depth + 1)

    def located(self, text, m):
        return [m.norm(ln) for ln in text.split("\n") if ln]


def parent(p):
    return p.rsplit("/", 1)[0] or "/"


def parse_tree(text, top, what):
    lines = text.rstrip("\n").split("\n")
    require(lines[0] == top, f"{what}: the tree is headed {lines[0]!r}")
    out = []
    for ln in lines[1:]:
        depth = 0
        while ln.startswith(("\u2502   ", "    ")):
            ln, depth = ln[4:], depth + 1
        require(ln.startswith(("\u251c\u2500\u2500 ", "\u2514\u2500\u2500 ")), f"{what}: tree line {ln!r}")
        name = ln[4:]
        out.append((depth, name.rstrip("/"), name.endswith("/")))
    return out


def delta(a, b):
    return (f"unexpected {[x for x in a if x not in b][:4]}", f"missing {[x for x in b if x not in a][:4]}",
            "" if sorted(a) != sorted(b) else f"order {a[:12]}")


CHECK = C28()

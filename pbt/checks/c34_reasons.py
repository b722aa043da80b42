"""C34: a refusal carries the kind of error that tells why."""
from pbt import gen, lazy, ops, sut
from pbt.core import Check, Violation, require
from pbt.model import Model, Partial, Refused, plain, policy
from pbt.sut import q
from sandfs import MemoryStorageAdapter
from sandfs.exceptions import InvalidOperation, NodeExists, NodeNotFound, ProviderError, SandboxError

LOOKS = ["read_file", "ls", "get_node", "get_version", "walk", "cd", "get_policy", "set_policy", "iter_files",
         "mount_file", "mount_directory", "mount_storage", "sync_storage"]
BAD = ["read", "read_below", "ls", "append", "copy", "copy_r", "cd_below", "write_below", "sh", "walk", "export"]


class Oops(Exception):
    pass


class C34(Check):
    id = "C34"
    rule = """histories of tree operations and lookups through the API on given, empty or provided trees
    with protected and unreadable nodes, stale versions, missing and blocked paths, and failing
    providers (any error, also the sandbox's own); the class of each error is compared with the set
    of reasons that a reference filesystem gives for the refusal; now and then the same call is
    made through the shell, whose result must be a failure with a message; non-trivial: refusals of
    at least two different kinds"""
    quick, thorough = 24000, 400000
    max_ops, op_bytes, cfg_bytes, min_ops = 30, 18, 90, 4
    assumptions = ["where several reasons apply, any of them may be given",
                   "an existing file in the way counts as existing or as an invalid operation"]

    def decode(self, cfg, raw):
        pool = gen.names(cfg)
        bits = lazy.choose(cfg, 20)
        setup = gen.setup_tree(cfg, pool, big=False) if bits or cfg.chance(75) else []
        out = []
        for b in raw:
            kind = b.weighted([(12, "tree"), (8, "look"), (2, "policy"), (2, "bad")])
            if kind == "tree":
                op = gen.tree_op(b, gen.TREE_OPS, pool)
                if op["op"] in ("write", "append") and b.chance(25):
                    op["expect"] = b.below(4)
                op["sh"] = b.chance(15)
            elif kind == "policy":
                op = {"op": "policy", "p": {"node": b.u8()}, "policy": gen.some_policy(b)}
            elif kind == "bad":
                op = {"op": "bad", "do": b.pick(BAD), "fault": b.below(5)}
            else:
                op = {"op": "look", "do": b.pick(LOOKS), "p": gen.path_ref(b, pool)}
            out.append(op)
        return {"ops": out, "setup": setup, "lazy": bits}

    def run(self, case, env):
        vfs = sut.VirtualFileSystem()
        shell = sut.SandboxShell(vfs)
        m = Model()
        ops.install(vfs, m, case["setup"], case["lazy"])
        self.bad = sut.VirtualFileSystem()
        self.bad.mount_file("/bad", self.fail)
        self.bad.mount_directory("/baddir", self.fail)
        self.bad.write_file("/good", "x")
        kinds = set()
        for i, op in enumerate(case["ops"]):
            what = f"step {i} {op}"
            if op["op"] == "bad":
                self.provider(op, what)
                kinds.add(ProviderError)
                continue
            p = gen.resolve(op["p"], m)
            if op["op"] == "policy":
                if not (m.find(p).is_dir and op["policy"]["ao"]):
                    vfs.set_policy(p, sut.pol(op["policy"]))
                    m.set_policy(p, op["policy"])
                continue
            to = gen.resolve(op["to"], m) if "to" in op else None
            if op["op"] == "look":
                want = self.look(m, op["do"], p)
                if not want and (op["do"].startswith("mount") or op["do"] == "set_policy"):
                    continue  # only what must be refused
                ok, got = self.call(op["do"], vfs, p, what)
                if ok and op["do"] == "cd":
                    m.cd(p)
            else:
                want = self.reasons(m, op, p, to)
                ok, got = ops.api_call(vfs, op, p, to)
            require(ok == (not want), f"{what}: {'worked' if ok else 'was refused'}, path {p!r} {to!r}",
                    repr(got), f"expected {sorted(c.__name__ for c in want)}")
            if not ok:
                require(type(got) in want, f"{what}: path {p!r} {to!r} was refused with {got!r}",
                        f"expected {sorted(c.__name__ for c in want)}")
                require(str(got).strip(), f"{what}: the error says nothing", repr(got))
                kinds.add(type(got))
                env.label(f"{op['op']}-{type(got).__name__}")
                if op.get("sh") and "expect" not in op and ops.shell_safe(p, to, op.get("data")) \
                        and not (op["op"] == "mkdir" and op["ok"] != op["parents"]):
                    res = sut.sh(shell, ops.shell_line(op, p, to))
                    require(res.exit_code != 0 and res.stderr.strip(),
                            f"{what}: the shell does not report the same failure", repr(res))
            elif op["op"] != "look":
                try:
                    ops.model_call(m, op, p, to)
                except (Refused, Partial) as exc:
                    raise Violation(f"{what}: accepted: {exc}") from exc
                if op["op"] == "touch" and m.find(p).version is None or op["op"] == "cp":
                    sut.adopt_versions(m, sut.capture(vfs))
                ops.settle(vfs, m)
            if not ok and op["op"] == "rm" and op["rec"]:
                got = sut.capture(vfs)
                m.adopt(got, m.pwd() if m.pwd() in got else "/")
                ops.home(vfs, m)
        return len(kinds) >= 2

    def call(self, name, vfs, p, what):
        try:
            more = {"mount_file": [lambda ctx: "x"], "mount_directory": [lambda ctx: {}],
                    "mount_storage": [MemoryStorageAdapter({"x": "y"})], "set_policy": [sut.pol(policy())]}
            value = getattr(vfs, name)(p, *more.get(name, []))
            return True, (list(value) if name in ("walk", "iter_files") else value)
        except SandboxError as exc:
            return False, exc

    # -- what a refusal may say -------------------------------------------
    def reach(self, m, path):
        """Reasons why ``path`` does not lead to a node."""
        node, rest = m.deepest(path)
        if not rest:
            return set()
        return {NodeNotFound} if node.is_dir else {InvalidOperation}

    def look(self, m, name, p):
        if name == "sync_storage":
            return {InvalidOperation}
        if name.startswith("mount"):
            node, rest = m.deepest(p)
            if rest:
                return set() if node.is_dir else {InvalidOperation}
            return {InvalidOperation} if node.is_dir == (name == "mount_file") else set()
        why = self.reach(m, p)
        if why:
            return why
        node = m.find(p)
        closed = {InvalidOperation} if not node.policy["r"] else set()
        if name == "read_file":
            return closed | ({InvalidOperation} if node.is_dir else set())
        if name == "get_version":
            return {InvalidOperation} if node.is_dir else set()
        if name == "iter_files":
            return closed
        if name in ("ls", "cd"):
            return closed | (set() if node.is_dir else {InvalidOperation})
        return set()

    def reasons(self, m, op, p, to):
        kind = op["op"]
        io = {InvalidOperation}
        node, rest = m.deepest(p)
        if kind in ("write", "append", "touch"):
            twin = self.trial(m, op, p, to)
            return io if twin else set()
        if kind == "mkdir":
            if m.norm(p) == "/":
                return set()
            if not rest:
                if not node.is_dir:
                    return {InvalidOperation, NodeExists}
                return set() if op["ok"] else {NodeExists}
            if not node.is_dir:
                return io
            why = set() if plain(node) else set(io)
            return why | ({NodeNotFound} if len(rest) > 1 and not op["parents"] else set())
        if kind == "cd":
            return self.look(m, "cd", p)
        refused = self.trial(m, op, p, to)
        if not refused:
            return set()
        why = self.reach(m, p)
        if kind == "rm":
            return why or io
        if not why:  # the source is there
            root = node is m.root
            if kind == "mv" and (root or not plain(node) or not plain(node.parent)):
                why |= io
            if kind == "cp" and (not node.policy["r"] or node.is_dir and not op["rec"] or root):
                why |= io
        dest, rest = m.deepest(to)
        if len(rest) > 1:
            why |= {NodeNotFound} if dest.is_dir else io
        elif rest:
            if not dest.is_dir or not plain(dest):
                why |= io
        elif not dest.is_dir:
            why |= io | {NodeExists}
        else:
            if not plain(dest):
                why |= io
            source = m.find(p)
            if source is not None and source.name in dest.kids:
                why |= {NodeExists} | (io if dest.kids[source.name] is source else set())
        source = m.find(p)
        up = dest
        while source is not None and source.is_dir and up is not None:
            if up is source:
                why |= io
            up = up.parent
        require(why, "harness: no reason for a refusal", repr(op), p, repr(to))
        return why

    def trial(self, m, op, p, to):
        """Would the reference refuse this?  (played on a copy)"""
        twin = Model()
        twin.root = m.root.clone("", None)
        twin.cwd = twin.find(m.pwd()) or twin.root
        try:
            ops.model_call(twin, op, p, to)
        except (Refused, Partial):
            return True
        return False

    # -- failing providers ------------------------------------------------
    def fail(self, ctx):
        raise [Oops("broken"), KeyError("k"), InvalidOperation("not so"), NodeNotFound("gone"),
               ProviderError("own")][self.fault]

    def provider(self, op, what):
        self.fault, v = op["fault"], self.bad
        do = op["do"]
        if do == "sh":
            for line in ("cat /bad", "ls /baddir", "cp /bad /c", "cat /baddir/x"):
                res = sut.sh(sut.SandboxShell(v), line)
                require(res.exit_code != 0 and res.stderr.strip(), f"{what}: {q(line)}", repr(res))
            return
        call = {"read": lambda: v.read_file("/bad"), "read_below": lambda: v.read_file("/baddir/x"),
                "ls": lambda: v.ls("/baddir"), "append": lambda: v.append_file("/bad", "x"),
                "copy": lambda: v.copy("/bad", "/new"), "copy_r": lambda: v.copy("/baddir", "/new", recursive=True),
                "cd_below": lambda: v.cd("/baddir/x"), "write_below": lambda: v.write_file("/baddir/x", "y"),
                "walk": lambda: list(v.walk("/baddir")), "export": lambda: v.snapshot()}[do]
        try:
            value = call()
        except ProviderError as exc:
            require(str(exc).strip(), f"{what}: the error says nothing", repr(exc))
        except Exception as exc:
            raise Violation(f"{what}: a failing provider is reported as {exc!r}") from exc
        else:
            raise Violation(f"{what}: worked with a failing provider: {value!r}")
        require(not v.exists("/new") and v.read_file("/good") == "x", f"{what}: something was done")


CHECK = C34()

"""C13: hooks see every content change exactly once, and nothing else."""
from pbt import gen, lazy, ops, sut
from pbt.core import Check, require
from pbt.model import Model, policy
from pbt.sut import q
from pbt.views import within
from sandfs import MemoryStorageAdapter, SearchQuery
from sandfs.integrations import InboxRecorder

TABLE = [(6, "write"), (5, "append"), (3, "touch"), (2, "mkdir"), (5, "rm"), (6, "mv"), (6, "cp"),
         (1, "cd"), (2, "policy"), (2, "redirect"), (2, "expect"), (2, "look"), (1, "host"),
         (2, "hook"), (1, "glob"), (3, "again")]
PREFIXES = ["/", "/a", "/a/b", "/ab", "/a/", "a", "/a/../a", "/b", "/a/a", "/nowhere", "/c/d.txt",
            "/aa", "/a.", "/m", "/m/a", "."]
AUDIT = "/audit.log"


class C13(Check):
    id = "C13"
    rule = """histories of every modifying operation (API, shell, redirections, globs, host
    scripts, refused and partly refused ones) and of reading commands, inside and outside
    storage mounts, with several path hooks, write hooks and an inbox recorder on
    overlapping, nested, sibling-text and missing prefixes, registered before or during
    the history, and path hooks that read the changed file or append to a log in the same sandbox; the events of each step must be exactly the per-path difference of the
    files before and after it, and a replica fed only by events must equal the files below
    the prefix; non-trivial: at least 4 events on some prefix other than the root and 2
    event kinds"""
    quick, thorough = 13000, 200000
    max_ops, op_bytes, cfg_bytes = 30, 20, 80
    assumptions = ["hooks do not raise, and change nothing in the sandbox but a log file of their own",
                   "mounting, syncing and restoring are not content changes of the listed kinds"]

    def decode(self, cfg, raw):
        pool = gen.names(cfg, ("tiny", "tiny", "plain", "prefixy", "prefixy", "casey"))
        table = [t for t in TABLE if t[1] in ("mv", "write")] + gen.swarm(cfg, [
            t for t in TABLE if t[1] not in ("mv", "write")])
        if not cfg.chance(12):
            table = [t for t in table if t[1] != "host"]
        setup = gen.setup_tree(cfg, pool, big=False)
        bits = lazy.choose(cfg)
        spots = ["/" + "/".join(s["p"].split("/")[1:1 + d]) for s in setup for d in (1, 1, 2)]
        hooks = [[cfg.pick(spots if cfg.chance(70) else PREFIXES),
                  cfg.pick(["path", "write", "inbox"])] for _ in range(1 + cfg.below(4))]
        out = []
        for b in raw:
            kind = b.weighted(table)
            if kind == "policy":
                op = {"op": kind, "p": {"node": b.u8()},
                      "policy": b.pick([policy(w=False), policy(ao=True), policy(), policy(r=False)])}
            elif kind == "expect":
                op = gen.tree_op(b, [(1, b.pick(["write", "append"]))], pool)
                op["expect"] = b.below(4)
            elif kind == "hook":
                op = {"op": kind, "prefix": b.pick(PREFIXES),
                      "what": b.pick(["path", "write", "inbox"])}
            elif kind == "again":
                op = {"op": kind}
            elif kind in ("redirect", "look", "host", "glob"):
                op = {"op": kind, "p": gen.path_ref(b, pool), "data": b.pick(gen.PIECES),
                      "append": b.chance(50), "k": b.u8()}
            else:
                op = gen.tree_op(b, [(1, kind)], pool, shell=True)
                if b.chance(15):
                    op["p"] = "/m/" + b.pick(pool)
                elif b.chance(35):
                    op["p"] = b.pick(hooks)[0] + "/" + b.pick(pool)
                if "to" in op and b.chance(35):
                    op["to"] = b.pick(hooks)[0] + b.pick(["", "/" + b.pick(pool)])
            out.append(op)
        return {"setup": setup, "hooks": hooks, "index": cfg.chance(30), "mount": cfg.chance(30),
                "lazy": bits, "ops": out, "calls": cfg.weighted([(5, ""), (3, "read"), (2, "audit")])}

    def hook(self, vfs, hooks, prefix, what, files):
        at = Model().norm(prefix)  # registered while the current directory is the root
        log = []
        old, dirs = vfs.pwd(), sorted(p.rsplit("/", 1)[0] for p in files if p.count("/") > 1)
        moved = prefix.startswith("/") and dirs and vfs.get_policy(old).readable and sut.attempt(
            vfs.cd, dirs[0])[0]  # an absolute prefix means the same from anywhere
        if what == "path":
            seen = self.caller(vfs)
            vfs.register_path_hook(prefix, lambda ev: (
                log.append((ev.path, ev.event, ev.content)), seen(ev)))
        elif what == "inbox":
            inbox = InboxRecorder()
            inbox.attach(vfs, prefix)
            log = inbox.events
        else:
            vfs.register_write_hook(prefix, lambda ev: log.append(
                (ev.path, ev.content, ev.version, ev.append)))
        if moved:
            vfs.cd(old)
        replica = {p: r["content"] for p, r in files.items() if within(p, at)}
        hooks.append({"at": at, "what": what, "log": log, "replica": replica, "seen": 0,
                      "kinds": set(), "past": []})

    def caller(self, vfs):
        """What a hook does in the sandbox that called it: nothing, look, or keep a log there."""
        def seen(ev):
            if not self.calls or ev.path == AUDIT:
                return
            there = vfs.exists(ev.path)
            if there != (ev.event != "delete"):
                self.trouble.append(f"at the {ev.event} event of {ev.path} it "
                                    + ("exists" if there else "does not exist"))
            elif there and vfs.get_policy(ev.path).readable:
                text = vfs.read_file(ev.path)
                if text != ev.content:
                    self.trouble.append(f"at the {ev.event} event of {ev.path} it reads {text!r}, "
                                        f"the event says {ev.content!r}")
            if self.calls == "audit" and vfs.is_file(AUDIT):
                pol = vfs.get_policy(AUDIT)
                if pol.writable and pol.readable:
                    want = vfs.read_file(AUDIT) + f"{ev.event} {ev.path}\n"
                    vfs.append_file(AUDIT, f"{ev.event} {ev.path}\n")
                    self.audited += 1
                    if vfs.read_file(AUDIT) != want:
                        self.trouble.append(f"a log kept by a hook reads {vfs.read_file(AUDIT)!r}, "
                                            f"not {want!r}")
        return seen

    def files(self, vfs):
        return {p: r for p, r in sut.capture(vfs).items() if not r["dir"] and p != AUDIT}

    def run(self, case, env):
        vfs = sut.VirtualFileSystem()
        shell = sut.SandboxShell(vfs)
        m = Model()
        ops.install(vfs, m, case["setup"], case["lazy"])
        if case["mount"] and m.find("/m") is None:
            vfs.mount_storage("/m", MemoryStorageAdapter({"a": "one\n", "d/b": "two\n"}))
        if not case["lazy"] or vfs.exists("/m"):
            m.adopt(sut.capture(vfs))
        if case["index"]:
            vfs.enable_full_text_index()
        hooks = []
        self.calls, self.trouble, self.audited = case.get("calls", ""), [], 0
        if self.calls == "audit":
            vfs.write_file(AUDIT, "")
            m.write(AUDIT, "")
        files = {p: r for p, r in m.state().items() if not r["dir"] and p != AUDIT}
        for prefix, what in case["hooks"]:
            self.hook(vfs, hooks, prefix, what, files)
        total, last = 0, None
        for i, op in enumerate(case["ops"]):
            if op["op"] == "again":  # the same write once more
                op = last
                if op is None:
                    continue
            elif op["op"] in ("write", "append", "touch"):
                last = op = dict(op, p=gen.resolve(op["p"], m))
            what = f"step {i} {op}"
            kind = op["op"]
            if kind == "hook":
                ops.home(vfs, m)
                self.hook(vfs, hooks, op["prefix"], op["what"], files)
                continue
            if kind == "policy":
                node = m.find(gen.resolve(op["p"], m))
                if node.is_dir and op["policy"]["ao"]:
                    op = dict(op, policy=policy(w=False))
                ops.play_both(vfs, shell, m, op)
                files = self.files(vfs)
                continue
            append = kind == "append" or (
                kind == "redirect" and op["append"])
            got = self.act(vfs, shell, m, op)
            if got is None:
                continue
            now = self.files(vfs)
            if got in ("refused", "look"):
                require(now == files, f"{what}: {got} but the files changed")
            require(not self.trouble, f"{what}: {self.trouble[:1]}")
            self.judge(hooks, files, now, append, f"{what} ({got})", env)
            total += now != files
            files = now
            if got in ("partial", "adopt"):
                m.adopt(sut.capture(vfs), vfs.pwd() if vfs.is_dir(vfs.pwd()) else "/")
            else:
                state = sut.capture(vfs)
                for n in m.root.walk():  # C04 and C09 judge versions
                    n.version = state[n.path()]["version"] if n.path() in state else None
            if not vfs.is_dir(vfs.pwd()) or m.cwd_lost():
                ops.home(vfs, m)
        if self.audited:
            env.label("audited")
        return any(h["at"] != "/" and h["seen"] >= 4 and len(h["kinds"]) >= 2 for h in hooks)

    def judge(self, hooks, before, after, append, what, env):
        diff = []
        for p in sorted(set(before) | set(after)):
            a, b = before.get(p), after.get(p)
            if b is None:
                diff.append((p, "delete", None, None))
            elif a is None:
                diff.append((p, "create", b["content"], b["version"]))
            elif (a["content"], a["version"]) != (b["content"], b["version"]):
                diff.append((p, "update", b["content"], b["version"]))
        for h in hooks:
            # what has been recorded stays recorded
            old = len(h["past"])
            require(h["log"][:old] == h["past"], f"{what}: earlier records of the {h['what']} hook "
                    f"on {h['at']!r} changed")
            new = [x for x in h["log"][old:] if (x["path"] if h["what"] == "inbox" else x[0]) != AUDIT]
            mine = [d for d in diff if within(d[0], h["at"])]
            if h["what"] == "write":
                want = sorted((p, c, v, append) for p, e, c, v in mine if e != "delete")
                got = sorted(new)
            else:
                want = sorted(((p, e, c) for p, e, c, _ in mine), key=repr)
                log = [(x["path"], x["event"], x["content"]) for x in new] \
                    if h["what"] == "inbox" else new
                got = sorted(log, key=repr)
                for p, e, c in log:
                    if e == "delete":
                        h["replica"].pop(p, None)
                    else:
                        h["replica"][p] = c
                    h["kinds"].add(e)
                    env.label(e)
            require(got == want, f"{what}: events of the {h['what']} hook on {h['at']!r}",
                    "got:      " + sut.short(got), "expected: " + sut.short(want))
            h["seen"] += len(got)
            h["past"] = [dict(x) for x in h["log"]] if h["what"] == "inbox" else list(h["log"])
            if h["what"] != "write":
                want = {p: r["content"] for p, r in after.items() if within(p, h["at"])}
                require(h["replica"] == want, f"{what}: replaying the events of {h['at']!r} does "
                        "not rebuild the files", sut.short(h["replica"]), sut.short(want))

    def act(self, vfs, shell, m, op):
        kind = op["op"]
        if kind == "look":
            p = gen.resolve(op["p"], m)
            if not ops.shell_safe(p):
                return None
            k = op["k"] % 9
            if k < 6:
                sut.sh(shell, ["cat", "ls -l", "tree", "find", "rg e", "stat"][k] + " " + q(p))
            elif k == 6:
                sut.attempt(vfs.search, SearchQuery("e"))
            elif k == 7:
                vfs.snapshot()
            elif sut.attempt(vfs.touch, p)[0] and m.find(p) is None:
                m.touch(p)
                return "ok"
            return "look"
        if kind == "redirect":
            p = gen.resolve(op["p"], m)
            if not ops.shell_safe(p, op["data"]):
                return None
            res = sut.sh(shell, f"echo {q(op['data'])} {'>>' if op['append'] else '>'} {q(p)}")
            return "adopt" if res.exit_code == 0 else "refused"
        if kind == "glob":
            p = gen.resolve(op["p"], m)
            node = m.find(p)
            if node is None or not node.is_dir or not ops.shell_safe(p):
                return None
            sut.sh(shell, f"rm {'-r ' if op['k'] % 2 else ''}{q(p if p != '/' else '')}/*")
            return "adopt"
        if kind == "host":
            p = gen.resolve(op["p"], m)
            if not all(c.isalnum() or c in "./" for c in p) or p == "/":
                return None
            ops.home(vfs, m)
            rel = "." + p
            script = f"rm -rf {rel}" if op["k"] % 3 == 0 else \
                f"printf %s {q(op['data'])} > {rel}; mkdir -p {rel}.d; echo more > {rel}.d/f"
            sut.sh(shell, "sh -c " + q(script))
            return "adopt"
        return ops.play_both(vfs, shell, m, op)


CHECK = C13()

"""C15: the search view is the search result, for the asking shell only."""
from urllib.parse import quote

from pbt import gen, lazy, ops, searching, sut, views
from pbt.core import Check, require
from pbt.model import Model, policy
from pbt.sut import q

WORDS = ["needle", "Needle", "hay", "a/b=c&d", "50% off", "x y", "a+b", "\u00fcmlaut", "q?q", "end",
         "[z]", "$HOME", "he'llo", "needle  ", " hay\t", "\tneedle end "]
QUERIES = ["needle", "Needle", "e", "hay", "a/b", "=", "&d", "% o", "x y", "a+b", "\u00fc", "?", "zzz",
           "[", "$", "'"]
REGEXES = ["^needle", "n.*e$", "[hx]", "a\\+b", "needle|hay", "\\$", "^$"]
CMDS = ["ls", "find", "cat", "rg", "tree", "head", "wc", "cat <", "find -type f", "ls -l", "stat",
        "ls nav", "cat pipe", "grep", "tail"]


def content(b, **kw):
    return "\n".join(b.pick(WORDS) for _ in range(1 + b.below(5))) + ("\n" if b.chance(50) else "")


class C15(Check):
    id = "C15"
    rule = """labelled trees, index on or off, several shells with different views on one sandbox
    (unrestricted, classification, principals, prefixes that include the view); histories of
    modifications, label changes, snapshots and restores, and of queries (text with reserved
    characters, regex, ignore_case, path; URL-encoded) listed, walked and read through the
    search view, attempts to modify it, and looks of the other shells at the bare view; the
    view must show exactly the independently computed matches; non-trivial: at least 3
    queries by 2 shells, 2 of them with results"""
    quick, thorough = 18000, 280000
    max_ops, op_bytes, cfg_bytes = 26, 20, 200
    assumptions = ["the bare view path without a query is only judged for shells with another view",
                   "views with metadata filters, or that hide public nodes or the view's own path, "
                   "cannot use the search view",
                   "the path parameter is not combined with navigation below the view"]

    def decode(self, cfg, raw):
        pool = gen.names(cfg, ("tiny", "plain", "plain", "odd", "casey"))
        at = cfg.weighted([(4, "/@search"), (1, "/s/view")])
        setup = gen.setup_tree(cfg, pool, n=9, data=content)
        shells = []
        for _ in range(2 + cfg.below(2)):
            v = {"cls": None, "pr": None, "prefixes": None, "meta": None}
            kind = cfg.weighted([(3, "open"), (3, "cls"), (3, "pr"), (3, "prefix"), (1, "both")])
            if kind in ("cls", "both"):
                v["cls"] = sorted({"public"} | {cfg.pick(views.CLASSES)})
            if kind in ("pr", "both"):
                v["pr"] = [cfg.pick(views.PRINCIPALS)]
            if kind in ("prefix", "both"):
                v["prefixes"] = [at, "/" + cfg.pick(pool)] + (
                    [cfg.pick(setup)["p"]] if cfg.chance(60) else [])
            shells.append(v)
        out = []
        for b in raw:
            kind = b.weighted([(10, "query"), (3, "bare"), (3, "write"), (1, "append"), (2, "rm"),
                               (2, "mv"), (1, "cp"), (3, "label"), (2, "snap"), (2, "restore"),
                               (2, "modify"), (1, "index")])
            if kind in ("query", "bare", "modify"):
                regex = b.chance(25)
                op = {"op": kind, "sh": b.u8(), "q": b.pick(
                    REGEXES if regex else ["e", "needle", "n", "a"] if b.chance(50) else QUERIES),
                      "regex": regex, "ic": b.chance(30), "cmd": b.pick(CMDS), "k": b.u8(),
                      "path": b.weighted([(9, None), (2, {"node": b.u8()}), (1, "/nowhere")]),
                      "raw": b.chance(40), "spell": b.u8() if b.chance(35) else 0}
            elif kind in ("snap", "restore", "index"):
                op = {"op": kind, "k": b.u8()}
            elif kind == "label":
                op = {"op": kind, "p": {"node": b.u8()}, "policy": policy(
                    r=not b.chance(20), cls=b.pick(views.CLASSES),
                    pr=b.pick([[], [], ["alice"], ["bob"], ["alice", "carol"]]))}
            else:
                op = gen.tree_op(b, [(1, kind)], pool)
                if "data" in op:
                    op["data"] = content(b)
            out.append(op)
        return {"at": at, "setup": setup, "lazy": lazy.choose(cfg), "shells": shells, "index": cfg.chance(40), "ops": out}

    def run(self, case, env):
        at = case["at"]
        vfs = sut.VirtualFileSystem()
        m = Model()
        ops.install(vfs, m, case["setup"], case["lazy"])
        if m.find(at) is not None or (at == "/s/view" and m.find("/s") is not None):
            return False
        if case["index"]:
            vfs.enable_full_text_index()
        vfs.enable_search_view(at)
        shells = [sut.SandboxShell(vfs, view=views.make_view(v)) for v in case["shells"]]
        self.at, self.vfs, self.m = at, vfs, m
        snaps = []
        if case["lazy"]:
            m.mkdir(at, True)
        else:
            m.adopt(self.state())
        asked, rich, owner = set(), 0, None
        for i, op in enumerate(case["ops"]):
            kind = op["op"]
            what = f"step {i} {op}"
            if kind in ("query", "bare", "modify"):
                k = op["sh"] % len(shells)
                v = case["shells"][k]
                what += f" view {v}"
                if kind == "query":
                    self.ran = False
                    rich += self.query(shells[k], v, op, what, env) > 0
                    if self.ran:
                        asked.add(k)
                        owner = v
                elif kind == "bare":
                    if owner is not None and v != owner:
                        self.bare(shells[k], op, what, env)
                else:
                    self.modify(shells[k], v, op, what, env)
                    owner = v
                continue
            if kind == "index":
                vfs.enable_full_text_index()
            elif kind == "snap":
                snaps.append((vfs.snapshot(), owner))
            elif kind == "restore":
                if snaps:
                    # whatever the view held then was somebody's
                    snap, owner = snaps[op["k"] % len(snaps)]
                    vfs.restore(snap)
                    look = op["k"] % len(shells)
                    if owner is not None and case["shells"][look] != owner:
                        self.bare(shells[look], op, what + " (right after)", env)
            else:
                p = gen.resolve(op["p"], m)
                to = gen.resolve(op["to"], m) if "to" in op else None
                if any(x and (views.within(x, at) or views.within(at, x)) for x in (p, to)):
                    continue
                if kind == "label":
                    vfs.set_policy(p, sut.pol(op["policy"]))
                else:
                    ops.api_call(vfs, op, p, to)
            m.adopt(self.state())
        return len(asked) >= 2 and rich >= 2

    def state(self):
        return {p: r for p, r in sut.capture(self.vfs).items() if not p.startswith(self.at + "/")}

    def url(self, op):
        path = None if op["path"] is None else gen.resolve(op["path"], self.m)
        if path is not None and views.within(path, self.at):
            path = None
        at = self.at
        if op.get("spell"):
            at = ["/" + at, "/." + at, "/nowhere/.." + at, at[1:], "." + at, "../.." + at, at + "/",
                  "/.." + at][op["spell"] % 8]
        url = at + "?q=" + quote(op["q"], safe="")
        if op["regex"]:
            url += "&regex=" + ["1", "true", "yes"][op["k"] % 3]
        if op["ic"]:
            url += "&ignore_case=" + ["1", "True", "on"][op["k"] % 3]
        if path is not None:
            plain = op["raw"] and all(c.isalnum() or c in "/.-_" for c in path) and path.isascii()
            url += "&path=" + (path[op["k"] % 2:] if plain else quote(path, safe=""))
        return url, path

    def query(self, shell, v, op, what, env):
        url, path = self.url(op)
        state = self.m.state()
        hits = searching.expect(state, op["q"], op["regex"], op["ic"], path or "/", skip=self.at,
                                allows=lambda p, r: views.policy_ok(v, r["policy"])
                                and views.prefix_ok(v, p))
        files = {}
        for p, n, line in hits:
            files.setdefault(p, []).append(f"{p}:{n}:{line}")
        texts = {p: "\n".join(lines) for p, lines in files.items()}
        dirs = {p.rpartition("/")[0][:k] for p in files for k in range(len(p) + 1)
                if k and (p.rpartition("/")[0] + "/")[k:k + 1] == "/"}
        dirs.discard("")
        cmd = op["cmd"]
        names = sorted(files)
        pick = names[op["k"] % len(names)] if names else None
        env.label(cmd + ("" if names else "-empty"))
        word = q(url)
        if cmd in ("find", "find -type f"):
            got = self.run_(shell, f"find {word}" + cmd[4:], what)
            want = {self.at + p for p in texts}
            if cmd == "find":
                want |= {self.at} | {self.at + d for d in dirs}
            self.same(sorted(got.splitlines()), sorted(want), what, cmd)
        elif cmd in ("ls", "ls -l", "ls nav"):
            top = ""
            if cmd == "ls nav":
                if not dirs or path is not None:
                    return len(files)
                top = sorted(dirs)[op["k"] % len(dirs)]
                word = q(url + top)
            kids = {(x[len(top) + 1:].split("/")[0], x in texts and x.count("/") == top.count("/") + 1)
                    for x in list(texts) + list(dirs) if x.startswith(top + "/")}
            if cmd == "ls -l":
                got = self.run_(shell, f"ls -l {word}", what)
                want = sorted(f"{'-' if f else 'd'} {self.at}{top}/{n}" for n, f in kids)
                self.same(sorted(got.splitlines()), want, what, cmd)
            else:
                got = self.run_(shell, f"ls {word}", what)
                want = [n + "/" for n, f in sorted(kids) if not f] + [
                    n for n, f in sorted(kids) if f]
                self.same(got, "  ".join(want), what, cmd)
        elif cmd in ("rg", "grep"):
            got = self.run_(shell, f"rg : {word}", what)
            want = sorted(f"{self.at}{p}:{line}" for p, lines in files.items() for line in lines)
            self.same(sorted(got.split("\n")) if got else [], want, what, cmd)
        elif cmd == "tree":
            got = self.run_(shell, f"tree {word}", what)
            tail = [x.split("\u2500\u2500 ", 1)[1] for x in got.split("\n")[1:]]
            want = [x.rpartition("/")[2] for x in texts] + [
                x.rpartition("/")[2] + "/" for x in dirs]
            self.same(sorted(tail), sorted(want), what, cmd)
        else:
            if pick is None or path is not None or not ops.shell_safe(pick):
                # a non-matching file must not be there
                other = sorted(set(self.m.files()) - set(files))
                if other and path is None and ops.shell_safe(other[0]):
                    res = sut.sh(shell, f"cat {q(url + other[op['k'] % len(other)])}") \
                        if ops.shell_safe(other[op["k"] % len(other)]) else None
                    self.ran = res is not None
                    require(res is None or res.exit_code != 0, f"{what}: a file that does not "
                            "match is in the view", repr(res))
                return len(files)
            spot = q(url + pick)
            text = texts[pick]
            if cmd == "stat":
                got = self.run_(shell, f"stat {spot}", what)
                require(f"Size: {len(text)} " in got and f"File: {self.at}{pick}\n" in got,
                        f"{what}: stat", got)
            elif cmd == "wc":
                got = self.run_(shell, f"wc -l {spot}", what)
                self.same(got.split()[0], str(len(files[pick])), what, cmd)
            elif cmd == "head":
                got = self.run_(shell, f"head -n 1 {spot}", what)
                self.same(got.rstrip("\n"), files[pick][0], what, cmd)
            elif cmd == "tail":
                got = self.run_(shell, f"tail -n 1 {spot}", what)
                self.same(got.rstrip("\n"), files[pick][-1], what, cmd)
            elif cmd == "cat <":
                self.same(self.run_(shell, f"cat < {spot}", what), text, what, cmd)
            elif cmd == "cat pipe":
                self.same(self.run_(shell, f"cat {spot} | cat", what), text, what, cmd)
            else:
                self.same(self.run_(shell, f"cat {spot}", what), text, what, cmd)
        return len(files)

    def run_(self, shell, line, what):
        self.ran = True
        res = sut.sh(shell, line)
        require(res.exit_code == 0, f"{what}: {line} failed", repr(res))
        return res.stdout

    def same(self, got, want, what, cmd):
        require(got == want, f"{what}: {cmd} of the search view", "got:      " + sut.short(got),
                "expected: " + sut.short(want))

    def bare(self, shell, op, what, env):
        """Another shell's results must not show at the bare path."""
        line = [f"find {self.at}", f"ls {self.at}", f"rg : {self.at}", f"echo {self.at}/*",
                f"tree {self.at}", f"cat {self.at}/*", f"find {self.at} -type f"][op["k"] % 7]
        res = sut.sh(shell, line)
        shown = {"find": [self.at], "ls": [], "rg": [], "echo": [self.at + "/*"],
                 "tree": [self.at], "cat": []}[line.split()[0]]
        if line.endswith("-type f"):
            shown = []
        if res.exit_code == 0 or line.split()[0] != "cat":
            require(res.stdout.split() == shown, f"{what}: {line!r} shows another shell's results",
                    repr(res))
        env.label("bare")

    def modify(self, shell, v, op, what, env):
        url, path = self.url(op)
        names = sorted(self.m.files())
        nav = names[op["k"] % len(names)] if names and path is None else ""
        if not ops.shell_safe(nav):
            nav = ""
        spot = q(url + nav)
        src = next((p for p in names if ops.shell_safe(p)), None)
        lines = [f"write {spot} x", f"append {spot} x", f"touch {spot}", f"mkdir {spot}",
                 f"mkdir -p {q(url)}/new", f"rm {spot}", f"rm -r {spot}", f"echo x > {spot}",
                 f"echo x >> {spot}"]
        if src is not None:
            lines += [f"cp {q(src)} {spot}", f"mv {q(src)} {spot}", f"mv {spot} /moved",
                      f"cp -r {spot} /copied"]
        line = lines[op["k"] % len(lines)]
        res = sut.sh(shell, line)
        require(res.exit_code != 0, f"{what}: {line!r} modified the search view", repr(res))
        sut.compare(self.state(), self.m.state(), f"{what}: {line!r}")
        env.label("modify")


CHECK = C15()

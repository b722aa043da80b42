"""C07: a restricted shell shows exactly what its view allows (name and content tokens)."""
import fnmatch
import pathlib
import re
import zlib

from pbt import gen, lazy, ops, sut, views
from pbt.core import Check, require
from pbt.model import policy
from pbt.sut import q
from sandfs import SearchQuery

HOW = ["ls", "ls -l", "cat", "cat <", "head", "tail", "wc", "stat", "grep TOK", "grep -n TOK",
       "grep -r TOK", "rg TOK", "rg -i tok", "search TOK", "search -e T.K", "tree", "find",
       "find -type f", "find -name", "glob", "glob2", "cat glob", "grep glob", "cd", "api ls",
       "api tree", "api glob", "api search", "tree.", "ls.", "search.", "find.", "python-free cp",
       "cp-out", "mv-out", "cp-r", "grep -r <dir>", "pipe", "glob name", "api glob name", "globstar", "api globstar", "find -type d",
       "2 ls", "2 ls -l", "2 cat", "2 head", "2 tail", "2 wc", "2 grep TOK", "2 grep -n TOK",
       "2 grep -r TOK", "2 rg TOK"]
TOK = re.compile(r"TOK\d{4}")
NAME = re.compile(r"\b(?:n\d\dx?)*n\d\d(?:\.txt|x| y|-z)?(?!\w)")


class C07(Check):
    id = "C07"
    rule = """labelled trees (unique name and content token per node; random classification,
    principals, metadata, readability) and random views (classifications, principals, path
    prefixes, metadata filters and combinations, also empty ones), index on or off, labels
    changing during the case; every built-in reading and listing command and view-taking API
    call (commands with one or two operands, also reached through a search-view path, globs with single and double stars)
    is compared with an independent evaluation of the view: no token or name of a
    disallowed node, every allowed one; non-trivial: view hides at least one file and shows
    at least one, and 3 commands were judged on either"""
    quick, thorough = 28000, 400000
    max_ops, op_bytes, cfg_bytes = 26, 8, 160
    assumptions = ["python, host, bash and sh are escape hatches of a view",
                   "a directory may be named even if only the metadata filter disallows it",
                   "the name of a disallowed directory may occur inside the path of an allowed node"]

    def decode(self, cfg, raw):
        bits = lazy.choose(cfg)
        nodes = views.decode_tree(cfg, 5 + cfg.below(9))
        view = views.decode_view(cfg, ["/"] + views.node_paths(nodes))
        out = []
        for b in raw:
            if b.chance(12):
                out.append({"op": "label", "n": b.u8(), "cls": b.pick(views.CLASSES),
                            "pr": b.pick([[], [], ["alice"], ["carol"]])})
            else:
                out.append({"op": "look", "n": b.u8(), "how": b.pick(HOW), "m": b.u8(),
                            "via": b.chance(50)})
        return {"nodes": nodes, "lazy": bits, "view": view, "index": cfg.chance(40),
                "sview": cfg.chance(25), "ops": out}

    def run(self, case, env):
        v = case["view"]
        vfs = sut.VirtualFileSystem()
        m = views.build(vfs, case["nodes"], case["lazy"])
        if case["index"]:
            vfs.enable_full_text_index()
        if case["sview"]:
            vfs.enable_search_view()
            m.mkdir("/@search")
        shell = sut.SandboxShell(vfs, view=views.make_view(v))
        judged = 0
        for i, op in enumerate(case["ops"]):
            paths = m.paths()
            p = paths[op["n"] % len(paths)]
            node = m.find(p)
            if op["op"] == "label":
                node.policy = dict(node.policy, cls=op["cls"], pr=op["pr"])
                vfs.set_policy(p, sut.pol(node.policy))
                continue
            where = f"step {i} {op} view {v}"
            if op["how"].startswith("2 "):
                other = m.find(paths[op["m"] % len(paths)])
                judged += self.two(shell, m, v, node, other, op["how"][2:], env, where)
            else:
                judged += self.look(vfs, shell, m, v, node, op["how"], env, where,
                                    case["sview"] and op["via"])
            ops.settle(vfs, m)
            if vfs.pwd() != "/":
                ops.home(vfs, m)
        shown = [n for n in m.root.walk() if not n.is_dir and views.allowed(v, n)]
        hidden = [n for n in m.root.walk() if not n.is_dir and not views.allowed(v, n)]
        return bool(shown and hidden) and judged >= 3

    def no_leak(self, m, v, text, given, what):
        nodes = list(m.root.walk())
        fine = [n for n in nodes if views.allowed(v, n)]
        tokens = {t for n in fine if not n.is_dir for t in TOK.findall(n.content)}
        names = set()
        for n in fine:
            while n.parent is not None:
                names.add(n.name)
                n = n.parent
        bad = set(TOK.findall(text)) - tokens
        require(not bad, f"{what}: content of hidden files came out: {sorted(bad)}", sut.short(text))
        bad = {n for n in NAME.findall(text) if n in {x.name for x in nodes}} - names - given
        require(not bad, f"{what}: names of hidden nodes came out: {sorted(bad)}", sut.short(text))

    def two(self, shell, m, v, node, other, how, env, what):
        """The same command with two operands: the second is held to the view like the first."""
        line = f"{how} {q(node.path())} {q(other.path())}"
        res = sut.sh(shell, line)
        env.label("2 " + how)
        given = set(node.path().split("/")) | set(other.path().split("/"))
        self.no_leak(m, v, res.stdout + res.stderr, given, f"{what}: {line}")
        both = (node, other)
        if how in ("ls", "ls -l", "grep -r TOK", "rg TOK"):
            if not all(n.policy["r"] and (views.nameable if n.is_dir else views.allowed)(v, n)
                       for n in both):
                return 0
        elif not all(not n.is_dir and n.policy["r"] and views.allowed(v, n) for n in both):
            bad = [n for n in both if not n.is_dir and not views.allowed(v, n)]
            require(not bad or res.exit_code != 0, f"{what}: {line} on a hidden file succeeded",
                    repr(res))
            return len(bad)
        require(res.exit_code == 0, f"{what}: {line} failed", repr(res))
        if how in ("ls", "ls -l"):
            want = {k.name for n in both if n.is_dir for k in n.kids.values()
                    if views.allowed(v, k)} - {"@search"}
            known = {x.name for x in m.root.walk()}
            got = {x for x in NAME.findall(res.stdout) if x in known}
            require(want <= got, f"{what}: {line} lists {sorted(got)}, allowed {sorted(want)}")
        elif how not in ("wc", "stat"):
            want = {t for n in both for x in n.walk()
                    if not x.is_dir and views.allowed(v, x) and x.policy["r"]
                    for t in TOK.findall(x.content)}
            got = set(TOK.findall(res.stdout))
            require(got == want, f"{what}: {line} shows {sorted(got)}, allowed {sorted(want)}")
        return 1

    def look(self, vfs, shell, m, v, node, how, env, what, via=False):
        p = node.path()
        w = q(p)
        slash = p if p != "/" else ""
        parts = set(p.split("/"))
        may = views.nameable(v, node)
        below = [n for n in node.walk() if not n.is_dir]
        want_tokens = {t for n in below if views.allowed(v, n) and n.policy["r"]
                       for t in TOK.findall(n.content)}
        kids = {n.name for n in (node.kids or {}).values() if views.allowed(v, n)}

        def run(line):
            res = sut.sh(shell, line)
            self.no_leak(m, v, res.stdout + res.stderr, parts, f"{what}: {line}")
            env.label(how)
            if how.endswith(".") and not may:  # in a hidden directory, without naming it
                self.no_leak(m, v, res.stdout, set(), f"{what}: {line} in {p}")
            return res

        def names(text):
            known = {x.name for x in m.root.walk()}
            return {x for x in NAME.findall(text) if x in known}

        readable, back = node.policy["r"], None
        if how in ("cat", "cat <", "head", "tail", "wc", "stat", "grep TOK", "grep -n TOK", "pipe"):
            if via and p != "/":  # a detour through the search view denotes the same file
                w = q("/@search?q=zz/.." + p)
            elif zlib.crc32((p + how).encode()) & 1 and not node.name.startswith("-"):
                old, up = vfs.pwd(), p.rsplit("/", 1)[0] or "/"
                if vfs.get_policy(old).readable and sut.attempt(vfs.cd, up)[0]:  # by its own name
                    back, w = old, q(node.name or ".")
            line = f"cat {w} | cat" if how == "pipe" else f"{how} {w}"
            res = run(line)
            if back:
                vfs.cd(back)
            if node.is_dir:
                return 0
            if not views.allowed(v, node):
                require(res.exit_code != 0, f"{what}: {line} on a hidden file succeeded", repr(res))
            elif readable:
                require(res.exit_code == 0, f"{what}: {line} on an allowed file failed", repr(res))
                if how not in ("wc", "stat"):
                    require(TOK.findall(node.content) == TOK.findall(res.stdout),
                            f"{what}: {line} did not show the file", repr(res))
            return 1
        if how in ("ls", "ls -l", "ls."):
            if how == "ls.":
                if not (readable and node.is_dir and vfs.is_dir(p)):
                    return 0
                vfs.cd(p)
                line = "ls"
            else:
                line = f"{how} {w}"
            res = run(line)
            if node.is_dir and may and readable:
                require(res.exit_code == 0, f"{what}: {line} failed", repr(res))
                got = ({x.rpartition("/")[2] for x in res.stdout.splitlines()} if how == "ls -l"
                       else {x.rstrip("/") for x in res.stdout.split("  ") if x})
                require(got == kids, f"{what}: {line} lists {sorted(got)}, allowed {sorted(kids)}")
                return 1
            if not node.is_dir:
                require((res.exit_code == 0) == (views.allowed(v, node) and readable),
                        f"{what}: {line}", repr(res))
                return 1
            return 0
        if how in ("grep -r TOK", "rg TOK", "rg -i tok", "search TOK", "search -e T.K", "search.",
                   "grep -r <dir>"):
            if how == "search.":
                if not (node.is_dir and readable):
                    return 0
                vfs.cd(p)
                line = "search TOK"
            elif how == "grep -r <dir>":
                line = f"grep -r -n -i TOK {w} {w}"
            else:
                line = f"{how} {w}"
            res = run(line)
            if may and readable:
                require(res.exit_code == 0, f"{what}: {line} failed", repr(res))
                got = set(TOK.findall(res.stdout))
                require(got == want_tokens, f"{what}: {line} found {sorted(got)}, "
                        f"allowed {sorted(want_tokens)}")
                return 1
            return 0
        if how in ("tree", "tree."):
            if not node.is_dir:
                return 0
            if how == "tree.":
                if not readable:
                    return 0
                vfs.cd(p)
                line = "tree"
            else:
                line = f"tree {w}"
            res = run(line)
            if may and readable:
                want = {n.name for n in views.chain(v, node, start=False)} - {"@search"}
                got = names("\n".join(res.stdout.split("\n")[1:]))
                require(got == want, f"{what}: {line} shows {sorted(got)}, allowed {sorted(want)}")
                return 1
            return 0
        if how.startswith("find"):
            nodes = views.chain(v, node)
            line = f"find {w}"
            if how == "find -type f":
                line += " -type f"
                nodes = [n for n in nodes if not n.is_dir]
            elif how == "find -type d":
                line += " -type d"
                nodes = [n for n in nodes if n.is_dir]
            elif how == "find -name":
                # an exact name: the shell would expand a pattern against the current directory
                pick = max(nodes, key=lambda n: n.name).name if nodes else "n00"
                line += f" -name {q(pick)}"
                parts.add(pick)
                nodes = [n for n in nodes if n.name == pick]
            elif how == "find.":
                if not (node.is_dir and readable):
                    return 0
                vfs.cd(p)
                line = "find"
            res = run(line)
            if may:
                require(res.exit_code == 0, f"{what}: {line} failed", repr(res))
                want = {n.path() for n in nodes}
                got = {x for x in res.stdout.split("\n") if x}
                require(got == want, f"{what}: {line} finds {sorted(got)}, allowed {sorted(want)}")
                return 1
            return 0
        if how in ("glob", "glob2"):
            if not node.is_dir:
                return 0
            pattern = f"{slash}/*" if how == "glob" else f"{slash}/*/*"
            res = run(f"echo {sut.qglob(pattern)}")
            want = [n for k in (node.kids or {}).values()
                    for n in ([k] if how == "glob" else (k.kids or {}).values())
                    if views.allowed(v, n)]
            if not want:
                return 0
            got = res.stdout.rstrip("\n")
            want = " ".join(sorted(n.path() for n in want))
            require(sorted(got) == sorted(want), f"{what}: glob {pattern} gave {got!r}, "
                    f"allowed {want!r}")
            return 1
        if how in ("glob name", "api glob name"):
            # the last part is given literally: it matches hidden nodes no more than a star does
            above = p.split("/")[1:]
            if len(above) < 2:
                return 0
            i = len(w) % (len(above) - 1)
            pattern = "/" + "/".join(above[:i] + [above[i][:1] + "*"] + above[i + 1:])
            want = {n.path() for n in m.root.walk() if views.allowed(v, n)
                    and len(n.path().split("/")[1:]) == len(above)
                    and all(fnmatch.fnmatchcase(x, y) for x, y in zip(n.path()[1:].split("/"), pattern[1:].split("/")))}
            if how == "glob name":
                out = sut.sh(shell, f"echo {sut.qglob(pattern)}").stdout
                require(sorted(out) == sorted(" ".join(want or {pattern}) + "\n"),
                        f"{what}: glob {pattern} gave {out!r}, allowed {sorted(want)}")
            else:
                got = set(vfs.glob(pattern, view=views.make_view(v)))
                require(got == want, f"{what}: glob {pattern} gave {sorted(got)}, allowed {sorted(want)}")
            env.label(how)
            return 1
        if how in ("globstar", "api globstar"):
            # a double star crosses directories: everything allowed below the node, nothing else
            if not node.is_dir:
                return 0
            want = {n.path() for n in node.walk() if n is not node and views.allowed(v, n)}
            if how == "globstar":
                out = run(f"echo {q(slash)}/**").stdout.rstrip("\n")
                require(not want or len(out) in (len(" ".join(want)), len(" ".join(want)) + 2),
                        f"{what}: {slash}/** gave {out!r}, allowed {sorted(want)}")
            else:
                env.label(how)
                got = set(vfs.glob(slash + "/**", view=views.make_view(v))) - {"/"}
                require(got == want, f"{what}: {slash}/** gave {sorted(got)}, "
                        f"allowed {sorted(want)}")
            return 1
        if how in ("cat glob", "grep glob"):
            if not node.is_dir:
                return 0
            cmd = "cat" if how == "cat glob" else "grep TOK"
            run(f"{cmd} {q(slash)}/*")
            return 0
        if how == "cd":
            run(f"cd {w}")
            return 0
        if how.startswith("api"):
            view = views.make_view(v)
            env.label(how)
            if how == "api search":
                res = vfs.search(SearchQuery("TOK", path_prefix=pathlib.PurePosixPath(p)), view=view)
                got = {t for r in res for t in TOK.findall(r.line_text)}
                want = want_tokens if readable else set()
                require(got == want, f"{what}: search found {sorted(got)}, allowed {sorted(want)}")
                return 1
            if not node.is_dir or not readable:
                return 0
            if how == "api ls":
                got = {e.name for e in vfs.ls(p, view=view)}
                want = kids
            elif how == "api tree":
                got = names("\n".join(vfs.tree(p, view=view).split("\n")[1:]))
                want = {n.name for n in views.chain(v, node, start=False)} - {"@search"}
            else:
                got = {x.rpartition("/")[2] for x in vfs.glob(slash + "/*", view=view)}
                want = kids
            require(got == want, f"{what}: {how} shows {sorted(got)}, allowed {sorted(want)}")
            return 1
        if how in ("cp-out", "mv-out", "cp-r", "python-free cp"):
            # copying must not launder a hidden file into a visible place
            spot = None
            for n in m.root.walk():
                if n.is_dir and n is not node and views.allowed(v, n):
                    spot = (n.path() if n.path() != "/" else "") + "/n99x"
                    break
            if spot is None or m.find(spot) is not None:
                return 0
            cmd = {"cp-out": "cp", "mv-out": "mv", "cp-r": "cp -r", "python-free cp": "cp"}[how]
            hidden_below = [n for n in below if not views.allowed(v, n)]
            snap = vfs.snapshot()
            sut.sh(shell, f"{cmd} {w} {q(spot)}")
            for line in (f"cat {q(spot)}", f"rg TOK {q(spot)}", f"rg TOK {q('/')}"):
                res = sut.sh(shell, line)
                bad = {t for n in hidden_below for t in TOK.findall(n.content)} & set(
                    TOK.findall(res.stdout))
                require(not bad, f"{what}: {cmd} {p} made hidden content visible: {sorted(bad)}")
            vfs.restore(snap)
            env.label(how)
            return 1 if hidden_below else 0
        raise AssertionError(how)


CHECK = C07()
del policy, gen

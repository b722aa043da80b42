"""C14: search returns exactly the matching lines, indexed or not."""
import pathlib

from pbt import gen, lazy, ops, searching, sut
from pbt.core import Check, require
from pbt.model import Model, policy
from pbt.sut import q
from pbt.views import within
from sandfs import MemoryStorageAdapter, ProvidedNode, SearchQuery

WORDS = ["needle", "Needle", "hay", "foo:bar", "a.c", "abc", "x1", "tab\there", "\u00fcn\u00ef", " ",
         "", "end", "(p)", "-dash", "a+b", "NEEDLE in hay", "ne", "hayneedlehay", "stra\u00dfe", "STRASSE", "\u0130stanbul", "i\u0307s", "\u017fee",
         "\u212aelvin", "kelvin", "\u03bf\u03c2", "\u039f\u03a3", "\ufb01n", "FIN"]
LITERALS = ["needle", "Needle", "e", "hay", "a.c", "(p)", "foo:bar", "\u00fc", "NEEDLE", "x", "", " ",
            "zzz", "a+b", "ab", "1", "ss", "\u00df", "\u1e9e", "\u0130", "i", "\u017f", "k", "\u212a",
            "\u03c2", "\u03a3", "\u03c3", "\ufb01", "fi"]
REGEXES = ["needle", "^needle", "hay$", "n..dle", "^$", "a.c", "[ab]", "foo:(bar|baz)", "\\d",
           "e{2}", "(?i)needle", "^", "x?1", "\\.c", "ne+dle$", "\\bhay\\b"]
TABLE = [(9, "query"), (5, "write"), (3, "append"), (4, "rm"), (5, "mv"), (4, "cp"), (1, "touch"),
         (1, "mkdir"), (2, "policy"), (2, "index"), (1, "provide"), (1, "mount"), (2, "extern"),
         (1, "snap"), (1, "restore"), (1, "cd"), (1, "reset")]


def content(b, **kw):
    n = b.weighted([(20, 0), (30, 1), (40, 3), (20, 6), (1, 40), (2, -1)])
    sep = b.weighted([(6, "\n"), (1, "\r\n")])
    if n == -1:
        # a long file: a match at its far end, or in a very long line
        filler = b.pick(["hay", "", "foo:bar"])
        last = b.pick(WORDS)
        if b.chance(30):
            return filler + "x" * (100 + b.below(70000)) + last + sep
        return (filler + sep) * (50 + b.below(2500)) + last + (sep if b.chance(60) else "")
    return sep.join(b.pick(WORDS) for _ in range(n)) + (sep if n and b.chance(60) else "")


class C14(Check):
    id = "C14"
    rule = """histories of writes, appends, removes, moves and copies of files and trees, policy
    changes, provided files and directories, storage mounts with external changes and syncs,
    snapshots and restores, resets to an empty tree, with the full-text index enabled at any point or never, and
    queries in between (literal and regular expression, case-sensitive or not, with any
    prefix spelling, existing or not; letters with unusual case mappings, files of thousands of
    lines); API results, the search command's lines and recursive
    grep are compared with an independent line matcher over the captured tree; non-trivial:
    at least 3 queries, one matching 2 or more lines, and a modification after the index was
    enabled"""
    quick, thorough = 22000, 350000
    max_ops, op_bytes, cfg_bytes = 34, 20, 100
    assumptions = ["providers return the same text at every call",
                   "file contents use \\n and \\r\\n line ends"]

    def decode(self, cfg, raw):
        pool = gen.names(cfg, ("tiny", "tiny", "plain", "prefixy", "odd", "casey"))
        table = [TABLE[0]] + gen.swarm(cfg, TABLE[1:])
        setup = gen.setup_tree(cfg, pool, data=content)
        bits = lazy.choose(cfg)
        out = []
        for b in raw:
            kind = b.weighted(table)
            if kind == "query":
                regex = b.chance(35)
                op = {"op": kind, "q": b.pick(REGEXES if regex else LITERALS), "regex": regex,
                      "ic": b.chance(35), "p": b.weighted([
                          (4, None), (5, {"node": b.u8()}), (2, "/nowhere"), (1, "/"),
                          (2, gen.path_ref(b, pool))]), "spell": b.u8(), "k": b.u8()}
            elif kind == "policy":
                op = {"op": kind, "p": {"node": b.u8()},
                      "policy": b.pick([policy(r=False), policy(), policy(w=False)])}
            elif kind in ("index", "snap", "restore", "mount", "extern", "reset"):
                op = {"op": kind, "k": b.u8(), "data": content(b)}
            elif kind == "provide":
                op = {"op": kind, "p": gen.path_ref(b, pool), "data": content(b), "k": b.u8()}
            else:
                op = gen.tree_op(b, [(1, kind)], pool)
                if "data" in op:
                    op["data"] = content(b)
                if b.chance(15):
                    op["p"] = "/m/" + b.pick(pool)
            out.append(op)
        case = {"setup": setup, "lazy": bits, "index": cfg.chance(45), "ops": out}
        if cfg.chance(20):  # a search view, and files whose names begin like it
            case["view"] = cfg.below(4)
        return case

    def run(self, case, env):
        vfs = sut.VirtualFileSystem()
        shell = sut.SandboxShell(vfs)
        m = Model()
        ops.install(vfs, m, case["setup"], case["lazy"])
        self.fresh = bool(case["lazy"])
        if case.get("view") is not None:
            beside = ["/@searches", "/@search.txt", "/@search2/x", "/@search-d/e/f"][case["view"]]
            vfs.enable_search_view()
            vfs.write_file(beside, "needle beside the view\n")
            m.mkdir("/@search")
            m.write(beside, "needle beside the view\n")
        indexed = case["index"]
        if indexed:
            vfs.enable_full_text_index()
        store, snaps = None, []
        queries = rich = late = 0
        for i, op in enumerate(case["ops"]):
            what = f"step {i} {op} (index {'on' if indexed else 'off'})"
            kind = op["op"]
            if kind == "query":
                n = self.query(vfs, shell, m, op, what, env)
                queries += 1
                rich += n >= 2
                continue
            if kind == "index":
                vfs.enable_full_text_index()
                indexed = True
                continue
            late += indexed
            if kind == "mount":
                if store is None and m.find("/m") is None and m.root.policy["w"]:
                    store = MemoryStorageAdapter({"a": op["data"], "d/b": "needle\nhay\n"})
                    vfs.mount_storage("/m", store)
            elif kind == "extern":
                if store is not None and vfs.is_dir("/m"):
                    held = store.list()
                    if held:
                        rel = sorted(held)[op["k"] % len(held)]
                        store.write(rel, op["data"], version=held[rel].version)
                    if op["k"] % 3 == 0:
                        store.delete(sorted(held)[0] if held else "a")
                    try:
                        vfs.sync_storage("/m")
                    except sut.SandboxError:
                        store = None  # removed since: what is at /m now is a plain directory
            elif kind == "snap":
                snaps.append(vfs.snapshot())
            elif kind == "restore":
                if snaps:
                    vfs.restore(snaps[op["k"] % len(snaps)])
            elif kind == "reset":
                # everything goes, and directories stand where files were
                old = [p for p in m.files() if not within(p, "/@search")]
                if op["k"] % 2:
                    vfs.restore(sut.VirtualFileSystem().snapshot())
                    store = None
                else:
                    for p in [c for c in m.paths() if c.count("/") == 1 and c != "/"]:
                        sut.attempt(vfs.remove, p, recursive=True)
                for k in range(min(3, len(old))):
                    sut.attempt(vfs.mkdir, old[(op["k"] + k) % len(old)], parents=True)
                env.label("reset")
            elif kind == "provide":
                self.provide(vfs, m, op)
            else:
                p = gen.resolve(op["p"], m)
                to = gen.resolve(op["to"], m) if "to" in op else None
                if within(p, "/@search") or within(to or "", "/@search"):
                    continue
                ops.api_call(vfs, op, p, to)
            self.fresh = False
            m.adopt(sut.capture(vfs), vfs.pwd() if vfs.is_dir(vfs.pwd()) else "/")
            if not vfs.is_dir(vfs.pwd()):
                ops.home(vfs, m)
        ops.home(vfs, m)
        for text in ("needle", "e"):
            self.query(vfs, shell, m, {"q": text, "regex": False, "ic": False, "p": None,
                                       "spell": 0, "k": 0}, "at the end", env)
        return queries >= 3 and rich >= 1 and late >= 1

    def provide(self, vfs, m, op):
        p = gen.resolve(op["p"], m)
        top, rest = m.deepest(p)
        if not rest or not top.is_dir or not top.policy["w"] or p.startswith("/m") or within(p, "/@search"):
            return
        data = op["data"]
        if op["k"] % 2:
            vfs.mount_file(p, lambda ctx: data)
        else:
            vfs.mount_directory(p, lambda ctx: {
                "pf": ProvidedNode.file(content=data),
                "pd": ProvidedNode.directory(children={"pg": ProvidedNode.file(
                    content_provider=lambda c: data + "needle")})})

    def query(self, vfs, shell, m, op, what, env):
        state = m.state() if self.fresh else sut.capture(vfs)
        self.fresh = False
        path = None if op["p"] is None else gen.resolve(op["p"], m)
        prefix = None
        if path is not None:
            prefix = [path, path, ops.relative(path, m), path.rstrip("/") + "/../"
                      + path.rpartition("/")[2], path + "/"][op["spell"] % 5]
        want = searching.expect(state, op["q"], op["regex"], op["ic"], path or "/", skip="/@search")
        if op["ic"] and not op["regex"] and not (op["q"].isascii() and self.plain(state)):
            want = self.scanned(state, want, op["q"], path or "/", what)
        query = SearchQuery(op["q"], regex=op["regex"], ignore_case=op["ic"],
                            path_prefix=None if prefix is None else pathlib.PurePosixPath(prefix))
        got = searching.found(vfs.search(query))
        require(got == want, f"{what}: search {op['q']!r} below {prefix!r} (that is {path!r})",
                "got:      " + sut.short(got), "expected: " + sut.short(want))
        env.label("hit" if want else "miss")
        flags = (" -e" if op["regex"] else "") + (" -i" if op["ic"] else "")
        if ops.shell_safe(op["q"], prefix) and prefix:
            res = sut.sh(shell, f"search{flags} {q(op['q'])} {q(prefix)}")
            require(res.exit_code == 0 and self.lines(res.stdout)
                    == sorted(f"{p}:{n}:{t}" for p, n, t in want),
                    f"{what}: search command", repr(res), sut.short(want))
            if op["k"] % 2 and path in state and state[path]["policy"]["r"]:
                cmd = ["grep -r -n", "rg -n", "grep --recursive --line-number"][op["k"] % 3]
                res = sut.sh(shell, f"{cmd}{flags} {q(op['q'])} {q(prefix)}")
                require(res.exit_code == 0 and self.lines(res.stdout)
                        == sorted(f"{p}:{n}:{t}" for p, n, t in want),
                        f"{what}: {cmd}", repr(res), sut.short(want))
                env.label("grep")
            if op["k"] % 5 == 0:
                res = sut.sh(shell, f"search --no-line-number{flags} {q(op['q'])} {q(prefix)}")
                require(self.lines(res.stdout) == sorted(f"{p}:{t}" for p, n, t in want),
                        f"{what}: search --no-line-number", repr(res))
        return len(want)

    def plain(self, state):
        return all(r["dir"] or not isinstance(r["content"], str) or r["content"].isascii()
                   for r in state.values())

    def scanned(self, state, want, text, path, what):
        """Letters whose lower case and case folding differ: either reading of ignore-case will
        do, but it has to be the one an index-free sandbox with the same files uses."""
        folded = searching.expect(state, text, False, "fold", path)
        if folded == want:
            return want
        plain = sut.VirtualFileSystem()
        for p, rec in state.items():
            if not rec["dir"] and isinstance(rec["content"], str):
                plain.write_file(p, rec["content"])
                if not rec["policy"]["r"]:
                    plain.set_policy(p, sut.pol(policy(r=False)))
        at = pathlib.PurePosixPath(path)
        got = searching.found(plain.search(SearchQuery(text, ignore_case=True, path_prefix=at)))
        require(got in (want, folded), f"{what}: ignoring case, {text!r} matches", sut.short(got),
                "by lower case: " + sut.short(want), "by case folding: " + sut.short(folded))
        return got

    def lines(self, text):
        return sorted(text.split("\n")) if text else []


CHECK = C14()

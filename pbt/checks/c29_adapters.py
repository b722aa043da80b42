"""C29: a storage adapter is an exact versioned store."""
import os
import pathlib

from pbt import gen, sut
from pbt.core import Check, Violation, require
from sandfs import MemoryStorageAdapter
from sandfs.adapters import FileSystemAdapter, StorageEntry

POOLS = {
    "plain": ["a", "b", "d/a", "d/b", "d/e/c", "x.txt", "f/g/h/i"],
    "odd": ["a b", "\u00fc", ".hid", "d/.x", "-n", "d/a'b", "#c", "\u65e5/\u672c", "A", "a", "d/~", "a\\b",
            "%41", "d/..x", "...", "a*", ".d/f", "d/.y/z", "__pycache__/m", "a.tmp", "b~", "node_modules/x", "[b]", "n" * 60 + "/" + "m" * 60],
}
STEPS = [1, -1, 1_000, 1_000_000, -1_000_000_000, 3_600_000_000_000]


class C29(Check):
    id = "C29"
    rule = """histories of direct adapter calls on an in-memory and a directory-backed store
    (root existing or not, given as text or path, four encodings): reads, listings, deletions,
    writes naming the current version, an earlier or a later one, files of any nesting, changes
    to returned entries, listings and the initial mapping, and, for directories, edits behind
    the adapter's back and a second adapter on the same root; oracle: a dictionary of contents
    and versions plus the bytes on disk; non-trivial: at least 3 writes accepted, 1 refused and
    1 deletion"""
    quick, thorough = 16000, 250000
    max_ops, op_bytes, cfg_bytes = 34, 14, 80
    assumptions = ["a name is not used as file and directory at once",
                   "a new file is written with version 0",
                   "edits behind a directory-backed adapter's back change the modification time"]

    def decode(self, cfg, raw):
        pool = POOLS[cfg.pick(["plain", "plain", "odd"])]
        fs = cfg.chance(60)
        case = {"fs": fs, "root": cfg.pick(["", "", "new", "new/deep er"]), "text": cfg.chance(50),
                "enc": cfg.weighted([(5, "utf-8"), (1, "utf-16"), (1, "latin-1"), (1, "utf-8-sig")]),
                "init": {n: gen.text(cfg, big=False) for n in pool if cfg.chance(35)}}
        table = gen.swarm(cfg, [(9, "write"), (4, "read"), (3, "list"), (5, "delete"), (6, "stale"),
                                (3, "mutate"), (3, "extern"), (1, "reopen"), (1, "missing")])
        case["ops"] = [{"op": b.weighted(table), "f": b.pick(pool), "data": gen.text(b, big=False),
                        "k": b.u8()} for b in raw]
        return case

    def fits(self, text, enc):
        return text if enc != "latin-1" else text.encode("latin-1", "replace").decode("latin-1")

    def clear(self, rel, held):
        """Nothing in the way of a file with this name."""
        return not any(o.startswith(rel + "/") or rel.startswith(o + "/") for o in held)

    def run(self, case, env):
        enc = case["enc"] if case["fs"] else "utf-8"
        init = {}
        for rel, text in case["init"].items():
            if self.clear(rel, init):
                init[rel] = self.fits(text, enc)
        self.root = None
        if case["fs"]:
            self.root = os.path.join(env.scratch(), case["root"]) if case["root"] else env.scratch()
            if case["root"]:
                init = {}
            for rel, text in init.items():
                self.put(rel, text, enc)
            kw = {} if enc == "utf-8" else {"encoding": enc}
            given = self.root if case["text"] else pathlib.Path(self.root)
            self.open = lambda: FileSystemAdapter(given, **kw)
            store = self.open()
            require(os.path.isdir(self.root), f"{self.root} was not created")
        else:
            mapping = dict(init)
            store = MemoryStorageAdapter(mapping) if case["text"] else MemoryStorageAdapter(initial=mapping)
            mapping["later"] = "added to the mapping\n"
            for rel in init:
                mapping[rel] = "changed in the mapping\n"
        self.enc, self.times = enc, {}
        held = {rel: (text, 0) for rel, text in init.items()}
        self.agree(store, held, "at the start")
        written = refused = deleted = 0
        for i, op in enumerate(case["ops"]):
            kind, rel = op["op"], op["f"]
            data = self.fits(op["data"], enc)
            what = f"step {i} {kind} {rel!r}"
            known = sorted(held)
            if kind in ("read", "mutate", "extern", "stale") and held and op["k"] % 4:
                rel = known[op["k"] % len(known)]
                what = f"step {i} {kind} {rel!r}"
            if kind == "write":
                if rel not in held and not self.clear(rel, held):
                    continue
                version = held.get(rel, ("", 0))[1]
                entry = self.call(store.write, rel, data, version=version, what=what)
                held[rel] = (data, version + 1)
                self.judge(entry, held[rel], what)
                written += 1
            elif kind == "stale":
                if rel not in held:
                    continue
                version = held[rel][1] + [1, -1, 2, 7, -held[rel][1] or 3][op["k"] % 5]
                try:
                    got = store.write(rel, data, version=version)
                except ValueError:
                    pass
                else:
                    raise Violation(f"{what}: a write naming version {version} was accepted over "
                                    f"version {held[rel][1]}: {got!r}")
                refused += 1
            elif kind == "read" or kind == "missing":
                rel = rel if kind == "read" else rel + "x"
                if rel in held:
                    self.judge(self.call(store.read, rel, what=what), held[rel], what)
                else:
                    try:
                        got = store.read(rel)
                    except (FileNotFoundError, IsADirectoryError):
                        pass
                    else:
                        raise Violation(f"{what}: reading a missing file gave {got!r}")
            elif kind == "list":
                self.agree(store, held, what)
            elif kind == "delete":
                if rel not in held and any(o.startswith(rel + "/") for o in held):
                    continue
                self.call(store.delete, rel, what=what)
                deleted += held.pop(rel, None) is not None
                if self.root is not None:
                    require(os.path.isdir(self.root), f"{what}: the adapter's root is gone")
                    require(not os.path.lexists(os.path.join(self.root, rel)), f"{what}: still on disk")
            elif kind == "mutate":
                self.mutate(store, rel, held, op)
            elif kind == "extern" and self.root is not None and rel in held:
                self.edit(rel, data, op["k"])
                old = held[rel][1]
                entry = store.list().get(rel) if op["k"] % 2 else self.call(store.read, rel, what=what)
                require(isinstance(entry, StorageEntry) and entry.version > old
                        and entry.content == self.shown(rel),
                        f"{what}: after an edit on disk the adapter gives {entry!r}, it had "
                        f"version {old}")
                held[rel] = (entry.content, entry.version)
                env.label("extern")
            elif kind == "reopen" and self.root is not None:
                other = {k: e.content for k, e in self.open().list().items()}
                require(other == {k: c for k, (c, _) in held.items()},
                        f"{what}: another adapter on the same root lists", sut.short(other),
                        sut.short(held))
            if i % 3 == 0:
                self.agree(store, held, what)
            elif rel in held:
                self.judge(self.call(store.read, rel, what=what), held[rel], what + ", then read")
            env.label(kind)
        self.agree(store, held, "at the end")
        return written >= 3 and refused >= 1 and deleted >= 1

    def call(self, fn, *args, what, **kw):
        try:
            return fn(*args, **kw)
        except (OSError, ValueError, KeyError) as exc:
            raise Violation(f"{what}: refused: {type(exc).__name__}: {exc}") from exc

    def judge(self, entry, want, what):
        require(isinstance(entry, StorageEntry) and (entry.content, entry.version) == want,
                f"{what}: gave {sut.short(entry)}", f"expected {sut.short(want)}")

    def agree(self, store, held, what):
        listed = store.list()
        require(isinstance(listed, dict)
                and all(isinstance(e, StorageEntry) for e in listed.values()),
                f"{what}: list() gave {sut.short(listed)}")
        got = {k: (e.content, e.version) for k, e in listed.items()}
        require(got == held, f"{what}: the adapter lists", sut.short(got), "expected " + sut.short(held))
        for rel in sorted(held)[:4]:
            self.judge(self.call(store.read, rel, what=what), held[rel], what + f", reading {rel!r}")
        if self.root is not None:
            found = {}
            for base, _, names in os.walk(self.root):
                for n in names:
                    f = os.path.join(base, n)
                    found[os.path.relpath(f, self.root)] = pathlib.Path(f).read_bytes()
            want = {k: c.encode(self.enc) for k, (c, _) in held.items()}
            require(found == want, f"{what}: on disk there is", sut.short(found), sut.short(want))

    def mutate(self, store, rel, held, op):
        """What a caller does to what it was given concerns nobody else."""
        if rel in held:
            entry = store.read(rel) if op["k"] % 2 else store.list()[rel]
            entry.content, entry.version = "scribble", 99
        listed = store.list()
        listed["extra"] = StorageEntry("extra", 1)
        for key in list(listed)[:op["k"] % 3]:
            del listed[key]
        if rel in held:
            entry = store.write(rel, held[rel][0], version=held[rel][1])
            held[rel] = (held[rel][0], held[rel][1] + 1)
            self.judge(entry, held[rel], f"rewriting {rel!r}")
            entry.content, entry.version = "scribble", 77

    def put(self, rel, text, enc):
        f = pathlib.Path(self.root, rel)
        f.parent.mkdir(parents=True, exist_ok=True)
        f.write_bytes(text.encode(enc))

    def shown(self, rel):
        return pathlib.Path(self.root, rel).read_bytes().decode(self.enc)

    def edit(self, rel, data, k):
        f = pathlib.Path(self.root, rel)
        used = self.times.setdefault(rel, set())
        at = f.stat().st_mtime_ns
        used.add(at)
        while at in used:
            at += STEPS[k % len(STEPS)]
        used.add(at)
        f.write_bytes(data.encode(self.enc))
        os.utime(f, ns=(at, at))


CHECK = C29()

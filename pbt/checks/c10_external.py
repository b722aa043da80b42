"""C10: external changes of a store are detected, never silently overwritten; sync adopts them."""
import os
import pathlib

from pbt import gen, ops, sut
from pbt.core import Check, require
from pbt.model import policy
from pbt.sut import q
from sandfs import MemoryStorageAdapter
from sandfs.adapters import FileSystemAdapter, StorageEntry

NAMES = ["a", "b", "d/a", "d/b", "d/e/c", "notes.txt"]
TABLE = [(6, "extern"), (6, "write"), (3, "append"), (2, "redirect"), (2, "cpover"), (2, "expect"),
         (4, "sync"), (2, "reshape"), (2, "policy"), (2, "meta"), (1, "touch"), (2, "local"),
         (1, "read"), (1, "new"), (1, "fail-write")]


# How far an external overwrite moves a file's modification time (None: to an old date).
STEPS = [None, 1, -1, 1_000, 1_000_000, -1_000_000_000, 3_600_000_000_000, -7]


class C10(Check):
    id = "C10"
    rule = """one or two sandboxes over shared in-memory or directory-backed stores (plus a
    sibling mount and local files); external overwrites of stored files (same length, same
    text, other text; modification time moved by an hour down to a nanosecond, either way), writes, appends, redirections and copies over files whose stored
    copy did or did not change, syncs after external creation and deletion, policies and
    metadata set on mounted nodes; oracle: per-sandbox record of the last store version it
    loaded or saved; non-trivial: at least 1 write refused because of an external change
    and 1 write accepted after a sync that brought a change"""
    quick, thorough = 18000, 300000
    max_ops, op_bytes, cfg_bytes = 26, 16, 80
    assumptions = ["external overwrites of files on disk change the modification time",
                   "deleting and re-creating a stored file behind the sandbox's back is only "
                   "generated right before a sync"]

    def decode(self, cfg, raw):
        table = gen.swarm(cfg, TABLE)
        keep = {"extern", "write", "sync"}
        table = [t for t in TABLE if t in table or t[1] in keep]
        init = {}
        for n in NAMES:
            if cfg.chance(60):
                init[n] = gen.text(cfg, big=False)
        out = []
        for b in raw:
            out.append({"op": b.weighted(table), "who": b.u8(), "n": b.u8(), "data": b.weighted(
                [(4, gen.text(b, big=False)), (1, "same"), (1, "")]), "k": b.u8(),
                "policy": b.pick([policy(w=False), policy(), policy(ao=True),
                                  policy(r=False), policy(cls="secret")])})
        return {"fs": cfg.chance(50), "two": cfg.chance(50), "init": init, "index": cfg.chance(30),
                "at": cfg.pick(["/m", "/x/m", "/"]), "ops": out}

    def run(self, case, env):
        at = case["at"].rstrip("/")
        self.root = None
        if case["fs"]:
            self.root = env.scratch()
            for rel, text in case["init"].items():
                f = os.path.join(self.root, rel)
                os.makedirs(os.path.dirname(f), exist_ok=True)
                pathlib.Path(f).write_bytes(text.encode())
            store = FileSystemAdapter(pathlib.Path(self.root))
        else:
            store = MemoryStorageAdapter(dict(case["init"]))
        self.store, self.clock = store, 1_000_000_000
        self.used = {}  # modification times a stored file has had
        self.count = {}  # how often each stored file was overwritten, by whomever
        boxes = []
        for i in range(2 if case["two"] else 1):
            vfs = sut.VirtualFileSystem()
            if at:
                vfs.write_file("/local", "stays\n")
                vfs.mount_storage("/other", MemoryStorageAdapter({"o": "other\n"}))
            vfs.mount_storage(at or "/", store)
            if case["index"]:
                vfs.enable_full_text_index()
            boxes.append({"vfs": vfs, "shell": sut.SandboxShell(vfs), "known": self.held()})
        refused = after_sync = 0
        brought = False
        for i, op in enumerate(case["ops"]):
            box = boxes[op["who"] % len(boxes)]
            what = f"step {i} {op} (sandbox {op['who'] % len(boxes)})"
            vfs, shell, known = box["vfs"], box["shell"], box["known"]
            kind = op["op"]
            held = self.held()
            names = sorted(set(known) & set(held))
            if kind == "reshape":
                self.reshape(op)
                for other in boxes:
                    brought = self.sync(other, at, what) or brought
                continue
            if kind == "sync":
                brought = self.sync(box, at, what) or brought
                env.label("sync")
                continue
            if kind == "local" and at:
                vfs.write_file("/local", op["data"])
                continue
            if kind == "new":
                name = f"new{i}"
                vfs.write_file(f"{at}/{name}", op["data"])
                require(self.held().get(name, (None,))[0] == op["data"], f"{what}: not stored")
                self.overwritten(name)
                known[name] = self.held()[name]
                continue
            if not names:
                continue
            rel = names[op["n"] % len(names)]
            path = f"{at}/{rel}"
            stale = held[rel] != known[rel]
            pol = sut.unpol(vfs.get_policy(path))
            if kind == "extern":
                self.extern(rel, held[rel][0] if op["data"] == "same" else op["data"], op["k"])
                self.overwritten(rel)
                continue
            if kind in ("policy", "meta") and op["k"] % 4 == 3 and "/" in rel:
                # the directory it is in
                node = vfs.get_node(path.rpartition("/")[0])
                node.metadata["dir"] = op["k"]
                node.policy.classification = f"c{op['n'] % 3}"
                continue
            if kind == "policy":
                vfs.set_policy(path, sut.pol(op["policy"]))
                continue
            if kind == "meta":
                vfs.get_node(path).metadata[f"k{op['k'] % 3}"] = op["k"]
                continue
            before = sut.capture(vfs)
            if kind == "read":
                if pol["r"]:
                    require(vfs.read_file(path) == before[path]["content"], what)
                continue
            if kind == "touch":
                sut.attempt(vfs.touch, path)
                sut.compare(sut.capture(vfs), before, what)
                require(self.held() == held, f"{what}: touching an existing file changed the store")
                continue
            append, allowed = False, pol["w"] and not pol["ao"]
            if kind == "fail-write":
                done, detail = sut.attempt(vfs.write_file, path, "x", expected_version=10 ** 6)
                allowed = False
            elif kind == "write":
                done, detail = sut.attempt(vfs.write_file, path, op["data"])
            elif kind == "expect":
                done, detail = sut.attempt(vfs.write_file, path, op["data"],
                                           expected_version=vfs.get_version(path))
            elif kind == "append":
                append, allowed = True, pol["w"]
                done, detail = sut.attempt(vfs.append_file, path, op["data"])
            elif kind == "redirect":
                append = op["k"] % 2 == 1
                allowed = pol["w"] and (append or not pol["ao"])
                op = dict(op, data="red\n")
                detail = sut.sh(shell, f"echo red {'>>' if append else '>'} {q(path)}")
                done = detail.exit_code == 0
            else:
                if not at:
                    continue
                src = ["/local", "/other/o"][op["k"] % 2]
                op = dict(op, data=vfs.read_file(src))
                done, detail = sut.attempt(vfs.copy, src, path)
            after, now = sut.capture(vfs), self.held()
            if stale or not allowed:
                require(not done, f"{what}: {kind} of {rel!r} was accepted although "
                        + ("its stored copy had changed" if stale else "it is protected"),
                        f"store had {sut.short(held[rel])}, sandbox knew {sut.short(known[rel])}")
                sut.compare(after, before, f"{what}: refused {kind}")
                require(now == held, f"{what}: refused {kind} changed the store", sut.short(held),
                        sut.short(now))
                if stale and allowed:
                    refused += 1
                    env.label("refused-" + kind)
                continue
            require(done, f"{what}: {kind} of {rel!r} was refused although its stored copy had "
                    "not changed", repr(detail))
            content = before[path]["content"] + op["data"] if append else op["data"]
            entry = self.store.read(rel)
            require(after[path]["content"] == content and now[rel][0] == content
                    and isinstance(entry, StorageEntry) and entry.content == content and entry.version == after[path]["version"],
                    f"{what}: {kind} gave", sut.short(after[path]), repr(entry), sut.short(content))
            self.overwritten(rel)
            for d in (before, after, held, now):
                d.pop(path, None)
                d.pop(rel, None)
            sut.compare(after, before, f"{what}: other files")
            require(now == held, f"{what}: other files of the store changed")
            known[rel] = self.held()[rel]
            if brought:
                after_sync += 1
        for box in boxes:
            self.sync(box, at, "at the end")
        return refused >= 1 and after_sync >= 1

    def held(self):
        """{file: (content, how often overwritten)}, without asking a directory-backed adapter:
        listing it would refresh its records and hide a write that forgets to."""
        if self.root is None:
            found = {k: e.content for k, e in self.store.list().items()}
        else:
            found = {}
            for base, _, names in os.walk(self.root):
                for n in names:
                    f = os.path.join(base, n)
                    found[os.path.relpath(f, self.root)] = pathlib.Path(f).read_bytes().decode()
        return {k: (c, self.count.setdefault(k, 0)) for k, c in found.items()}

    def overwritten(self, rel):
        self.count[rel] = self.count.get(rel, 0) + 1

    def extern(self, rel, data, k):
        if self.root is None:
            self.store.write(rel, data, version=self.store.read(rel).version)
            return
        f = pathlib.Path(self.root, rel)
        used = self.used.setdefault(rel, set())
        at = was = f.stat().st_mtime_ns
        used.add(was)
        step = STEPS[k % len(STEPS)]
        if step is None:
            self.clock += 1
            at = self.clock * 10 ** 9
        while at in used:
            at += step or 1
        used.add(at)
        f.write_bytes(data.encode())
        os.utime(f, ns=(at, at))

    def reshape(self, op):
        """External creation and deletion, and edits that keep a file's length and modification
        time (always followed by syncs)."""
        held = self.held()
        edited = sorted(held)[op["who"] % len(held)] if held else None
        if edited is not None and op["k"] % 3 == 0:
            text = held[edited][0]
            text = text[::-1] if text[::-1] != text else "z" * len(text)
            if self.root is None:
                self.extern(edited, text, 0)
            else:
                f = pathlib.Path(self.root, edited)
                stamp = f.stat().st_mtime_ns
                f.write_bytes(text.encode())
                os.utime(f, ns=(stamp, stamp))
            self.overwritten(edited)
            held = self.held()
        if op["k"] % 2 and held:
            gone = sorted(held)[op["n"] % len(held)]
            if self.root is None:
                self.store.delete(gone)
            else:
                pathlib.Path(self.root, gone).unlink()
        rel = f"x{op['k'] % 5}/y{op['n'] % 3}"
        if rel not in held:
            if self.root is None:
                self.store.write(rel, op["data"], version=0)
            else:
                f = pathlib.Path(self.root, rel)
                f.parent.mkdir(exist_ok=True)
                f.write_bytes(op["data"].encode())
            self.overwritten(rel)

    def sync(self, box, at, what):
        """-> did the sync bring a change?"""
        vfs = box["vfs"]
        before, held = sut.capture(vfs, times=True), self.held()
        vfs.sync_storage(at or "/")
        after = sut.capture(vfs, times=True)
        listed = {k: (e.content, e.version) for k, e in self.store.list().items()}
        require({k: c for k, (c, _) in listed.items()} == {k: c for k, (c, _) in held.items()},
                f"{what}: the adapter lists other files than it holds", sut.short(listed),
                sut.short(held))
        inside = at + "/"
        mine = {p[len(inside):]: r for p, r in after.items() if p.startswith(inside) and not r["dir"]}
        kept = {p: r for p, r in after.items() if r["dir"] and (p + "/").startswith(inside)}
        require({p: (r["content"], r["version"]) for p, r in mine.items()} == listed,
                f"{what}: after sync the mount differs from the store", sut.short(listed),
                sut.short({p: (r["content"], r["version"]) for p, r in mine.items()}))
        for rel, rec in mine.items():
            old = before.get(inside + rel)
            if old is not None:
                require(rec["policy"] == old["policy"] and rec["meta"] == old["meta"],
                        f"{what}: sync changed policy or metadata of {rel!r}", old, rec)
        for p, rec in kept.items():
            old = before.get(p)
            if old is not None and old["dir"]:
                require(rec["policy"] == old["policy"] and rec["meta"] == old["meta"],
                        f"{what}: sync changed policy or metadata of the directory {p!r}", old, rec)
        for path in set(before) | set(after):
            if not path.startswith(inside) and path != (at or "/"):
                require(before.get(path) == after.get(path), f"{what}: sync changed {path!r} "
                        "outside the mount", before.get(path), after.get(path))
        changed = held != box["known"]
        box["known"] = held
        return changed


CHECK = C10()
del ops

"""C11: the directory-backed adapter never leaves its root (hostile paths and links)."""
import os
import pathlib

from pbt import sut
from pbt.core import Check, require
from sandfs import FileSystemAdapter
from sandfs.exceptions import SandboxError

PARTS = ["..", "..", ".", "in.txt", "sub", "x.txt", "deep", "new", "link_in", "linkd_in",
         "link_out", "linkd_out", "link_evil", "link_abs", "link_new", "linkd_root", "link_up",
         "linkd_up2", "secret.txt", "outside", "root-evil", "root", "rootfile", "loop", "a b",
         "..x", "...", "link_chain", "real", "link_lost", "link_lost2"]
LINKS = {  # name -> target; {S} is the scratch directory
    "link_in": "in.txt", "linkd_in": "sub", "link_out": "../outside/secret.txt",
    "linkd_out": "../outside", "link_evil": "../root-evil", "link_abs": "{S}/outside/secret.txt",
    "link_new": "../outside/made-by-link", "linkd_root": ".", "link_up": "..",
    "linkd_up2": "{S}", "loop": "loop", "link_chain": "linkd_out/secret.txt",
    "link_lost": "loop/../link_abs", "link_lost2": "gone/../loop/../link_lost",
    "sub/link_back": "../../root-evil/secret.txt", "sub/linkd_out": "../../outside"}
READS = ["read", "list", "vfs-read", "vfs-walk"]
TABLE = [(5, "read"), (6, "write"), (5, "delete"), (2, "list"), (3, "vfs-write"), (2, "vfs-read"),
         (2, "vfs-rm"), (2, "vfs-cp"), (2, "vfs-mv"), (1, "sync"), (2, "relink"), (1, "vfs-walk"),
         (1, "remount")]


class C11(Check):
    id = "C11"
    rule = """a directory-backed adapter (its root given directly or through a link) beside
    sibling directories (one sharing the root's name as prefix) and with links to files and
    directories inside and outside, chains, loops and dangling links, some planted after
    mounting; random paths of parent references, absolute prefixes, links and names given to
    the adapter and to a mount; everything outside the root must stay byte-identical and
    never be returned, inside paths must be served; non-trivial: at least one path led
    outside and one inside path was served"""
    quick, thorough = 12000, 160000
    max_ops, op_bytes, cfg_bytes = 22, 14, 24

    def decode(self, cfg, raw):
        links = [n for n in LINKS if cfg.chance(70)]
        out = []
        for b in raw:
            parts = [b.pick(PARTS) for _ in range(1 + b.below(4))]
            lead = b.weighted([(10, ""), (3, "/"), (1, "//"), (2, "{S}/"), (2, "../"), (1, "./")])
            out.append({"op": b.weighted(TABLE), "path": lead + "/".join(parts)
                        + b.weighted([(9, ""), (1, "/")]), "n": b.u8()})
        return {"links": links, "alias": cfg.chance(30), "ops": out}

    def dump(self, top, skip):
        out = {}
        for base, dirs, files in os.walk(top):
            if base == skip:
                dirs[:] = []
                continue
            for n in dirs + files:
                f = os.path.join(base, n)
                st = os.lstat(f)
                if os.path.islink(f):
                    out[f] = ("link", os.readlink(f))
                elif n in dirs:
                    out[f] = ("dir", st.st_mode)
                else:
                    out[f] = (pathlib.Path(f).read_bytes(), st.st_mode)
        return out

    def run(self, case, env):
        s = os.path.realpath(env.scratch())
        root = os.path.join(s, "root")
        for d in ("root/sub/deep", "root-evil", "outside/sub", "root/real"):
            os.makedirs(os.path.join(s, d))
        for f, text in {"root/in.txt": "inside one", "root/sub/x.txt": "inside two",
                        "root/sub/deep/new": "inside three", "root/a b": "inside four",
                        "root-evil/secret.txt": "SECRET evil", "root-evil/in.txt": "SECRET evil2",
                        "outside/secret.txt": "SECRET out", "outside/x.txt": "SECRET out2",
                        "outside/sub/x.txt": "SECRET out3", "rootfile": "SECRET beside",
                        "secret.txt": "SECRET above", "in.txt": "SECRET above2"}.items():
            pathlib.Path(s, f).write_text(text)
        for name in case["links"]:
            os.symlink(LINKS[name].replace("{S}", s), os.path.join(root, name))
        if case["alias"]:
            os.symlink("root", os.path.join(s, "alias"))
        given = pathlib.Path(s, "alias" if case["alias"] else "root")
        adapter = FileSystemAdapter(given)
        vfs = sut.VirtualFileSystem()
        vfs.mount_storage("/m", adapter)
        out = self.dump(s, root)
        led_out = served = 0
        for i, op in enumerate(case["ops"]):
            path = op["path"].replace("{S}", s)
            what = f"step {i} {op['op']} {path!r}"
            rel = path.lstrip("/")
            real = os.path.realpath(os.path.join(root, rel))
            inside = real == root or real.startswith(root + os.sep)
            lost = {"loop", "link_lost", "link_lost2"} & set(rel.split("/"))
            if lost and "loop" in case["links"]:
                inside = None  # cannot be resolved at all
            led_out += inside is False
            ok, got = self.act(adapter, vfs, op, path, root, s, env)
            now = self.dump(s, root)
            if now != out:
                diff = [f for f in set(now) | set(out) if now.get(f) != out.get(f)]
                require(False, f"{what}: changed something outside the root: {sorted(diff)}")
            require("SECRET" not in repr(got), f"{what}: returned something outside the root",
                    sut.short(got))
            if op["op"] in ("read", "write", "delete") and inside is False:
                require(not ok or op["op"] == "delete", f"{what}: a path outside the root was "
                        "served", sut.short(got))
            if inside and not path.startswith("//") and self.judge(
                    op, path, real, root, ok, got, adapter, what):
                served += 1
            if op["op"] in ("list", "sync"):
                self.listing(adapter, root, what)
            env.label(op["op"] + {True: "-in", False: "-out", None: "-loop"}[inside])
        return led_out >= 1 and served >= 1

    def act(self, adapter, vfs, op, path, root, s, env):
        kind = op["op"]
        errors = (SandboxError, OSError, ValueError, RuntimeError)
        self.had = os.path.isfile(os.path.join(root, path.lstrip("/")))
        self.link = os.path.islink(os.path.join(root, path.strip("/")))
        try:
            if kind == "read":
                return True, adapter.read(path).content
            if kind == "write":
                try:
                    version = adapter.read(path).version
                except errors:
                    version = 0
                return True, adapter.write(path, "written here", version=version)
            if kind == "delete":
                return True, adapter.delete(path)
            if kind == "list":
                return True, adapter.list()
            if kind == "sync":
                return True, vfs.sync_storage("/m")
            if kind == "remount":
                other = sut.VirtualFileSystem()
                other.mount_storage("/", FileSystemAdapter(pathlib.Path(root)))
                return True, sut.capture(other)
            if kind == "relink":
                name = ["in.txt", "sub", "a b", "new"][op["n"] % 4]
                f = os.path.join(root, name)
                if os.path.islink(f) or not os.path.exists(f):
                    return True, None
                os.rename(f, f + ".was")
                os.symlink({"in.txt": "../outside/secret.txt", "sub": "../outside",
                            "a b": "../root-evil/secret.txt", "new": "../outside/x.txt"}[name], f)
                return True, None
            spot = "/m/" + path
            if kind == "vfs-write":
                return True, (vfs.write_file(spot, "written here") and None)
            if kind == "vfs-read":
                return True, vfs.read_file(spot)
            if kind == "vfs-walk":
                return True, sut.capture(vfs)
            if kind == "vfs-rm":
                return True, vfs.remove(spot, recursive=bool(op["n"] % 2))
            files = [str(p) for p, _ in vfs.iter_files("/")]
            src = files[op["n"] % len(files)] if files else "/m/in.txt"
            if not vfs.is_dir(spot.rpartition("/")[0]):
                sut.attempt(vfs.mkdir, spot.rpartition("/")[0], parents=True)
            if kind == "vfs-cp":
                return True, vfs.copy(src, spot)
            return True, vfs.move(src, spot)
        except errors as exc:
            return False, type(exc).__name__

    def judge(self, op, path, real, root, ok, got, adapter, what):
        kind = op["op"]
        if kind == "read" and os.path.isfile(real):
            require(ok and got == pathlib.Path(real).read_text(), f"{what}: an inside file was not "
                    "served", sut.short(got))
            return True
        if kind == "write" and path.lstrip("/") and not os.path.isdir(real):
            up = os.path.dirname(real)
            while not os.path.lexists(up):
                up = os.path.dirname(up)
            if not os.path.isdir(up):
                return False
            require(ok, f"{what}: writing an inside file was refused", sut.short(got))
            require(pathlib.Path(real).read_text() == "written here", f"{what}: not written")
            require(adapter.read(path).content == "written here", f"{what}: not read back")
            return True
        if kind == "delete" and self.had:
            require(ok and not os.path.lexists(os.path.join(root, path.strip("/"))),
                    f"{what}: an inside file was not deleted", sut.short(got))
            if self.link:
                require(os.path.isfile(real), f"{what}: deleted the file {real} that a link names, "
                        "another entry")
            return True
        return False

    def listing(self, adapter, root, what):
        listed = {k: e.content for k, e in adapter.list().items()}
        for base, dirs, files in os.walk(root):
            for n in files:
                f = os.path.join(base, n)
                if os.path.islink(f):
                    continue
                rel = os.path.relpath(f, root)
                require(listed.get(rel) == pathlib.Path(f).read_text(), f"{what}: {rel!r} is not "
                        "listed as it is", sut.short(listed.get(rel)))
        for rel in listed:
            real = os.path.realpath(os.path.join(root, rel))
            require(real.startswith(root + os.sep), f"{what}: lists {rel!r} outside the root")


CHECK = C11()

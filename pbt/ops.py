"""Plays one JSON operation on the real sandbox and on the model, and compares verdicts."""
from __future__ import annotations

from pbt import gen, lazy, sut
from pbt.core import Violation
from pbt.model import Partial, Refused
from pbt.sut import attempt, q


def shell_line(op, p, to=None):
    kind = op["op"]
    if kind == "write":
        return f"write {q(p)} --text {q(op['data'])}"
    if kind == "append":
        return f"append {q(p)} {q(op['data'])}"
    if kind == "mkdir":
        return f"mkdir {'-p ' if op['parents'] else ''}{q(p)}"
    if kind == "touch":
        return f"touch {q(p)}"
    if kind == "cd":
        return f"cd {q(p)}"
    if kind == "rm":
        return f"rm {'-r ' if op['rec'] else ''}{q(p)}"
    if kind == "mv":
        return f"mv {q(p)} {q(to)}"
    if kind == "cp":
        return f"cp {'-r ' if op['rec'] else ''}{q(p)} {q(to)}"
    raise AssertionError(kind)


def shell_safe(*texts):
    """Can these words be carried by a quoted shell word unchanged?"""
    for t in texts:
        if t is None:
            continue
        if t.startswith("-") or "\x00" in t:
            return False
    return True


def api_call(vfs, op, p, to=None):
    kind = op["op"]
    if kind == "write":
        return attempt(vfs.write_file, p, op["data"], **expected(op))
    if kind == "append":
        return attempt(vfs.append_file, p, op["data"], **expected(op))
    if kind == "mkdir":
        return attempt(vfs.mkdir, p, parents=op["parents"], exist_ok=op["ok"])
    if kind == "touch":
        return attempt(vfs.touch, p)
    if kind == "cd":
        return attempt(vfs.cd, p)
    if kind == "rm":
        return attempt(vfs.remove, p, recursive=op["rec"])
    if kind == "mv":
        return attempt(vfs.move, p, to)
    if kind == "cp":
        return attempt(vfs.copy, p, to, recursive=op["rec"])
    if kind == "policy":
        return attempt(vfs.set_policy, p, sut.pol(op["policy"]))
    raise AssertionError(kind)


def expected(op):
    return {"expected_version": op["expect"]} if op.get("expect") is not None else {}


def model_call(m, op, p, to=None):
    kind = op["op"]
    if kind in ("write", "append"):
        m.write(p, op["data"], append=kind == "append", expected=op.get("expect"))
    elif kind == "mkdir":
        ok = op["parents"] if op.get("via") == "sh" else op["ok"]
        m.mkdir(p, op["parents"], ok)
    elif kind == "touch":
        m.touch(p)
    elif kind == "cd":
        m.cd(p)
    elif kind == "rm":
        m.remove(p, op["rec"])
    elif kind == "mv":
        m.move(p, to)
    elif kind == "cp":
        m.copy(p, to, op["rec"])
    elif kind == "policy":
        m.set_policy(p, op["policy"])
    else:
        raise AssertionError(kind)


def play_both(vfs, shell, m, op, spell=None):
    """-> "ok" | "refused" | "partial".  Raises Violation if code and model disagree."""
    p = gen.resolve(op["p"], m)
    to = gen.resolve(op["to"], m) if "to" in op else None
    via = op.get("via", "api")
    if op.get("rel"):
        p, to = relative(p, m), relative(to, m)
    if via == "sh" and (shell is None or not shell_safe(p, to, op.get("data"))):
        op = dict(op, via="api")
        via = "api"
    if via == "sh":
        line = shell_line(op, p, to)
        res = sut.sh(shell, line)
        done, detail = res.exit_code == 0, line + " -> " + repr(res)
    else:
        done, detail = api_call(vfs, op, p, to)
        detail = f"{op['op']} {p!r} {to!r} -> {detail!r}"
    try:
        model_call(m, op, p, to)
        want = "ok"
    except Refused as exc:
        want, detail = "refused", detail + f" (expected a refusal: {exc})"
    except Partial:
        want = "partial"
    if done != (want == "ok"):
        raise Violation(f"{'accepted' if done else 'refused'} an operation that should be "
                        f"{'refused' if done else 'accepted'}: {sut.short(detail)}")
    return want


def relative(path, m):
    """The same location written relative to the model's current directory."""
    if path is None:
        return None
    here, there = m.pwd().split("/")[1:], path.split("/")[1:]
    here = [x for x in here if x]
    there = [x for x in there if x]
    while here and there and here[0] == there[0]:
        here, there = here[1:], there[1:]
    return "/".join([".."] * len(here) + there) or "."


def settle(vfs, m):
    """A removed current directory is outside the properties: leave it at once, on both sides."""
    if m.cwd_lost():
        home(vfs, m)


def home(vfs, m):
    """Go to the root on both sides, making it enterable if a case had closed it."""
    if not m.root.policy["r"]:
        m.root.policy = dict(m.root.policy, r=True)
        vfs.set_policy("/", sut.pol(m.root.policy))
    vfs.cd("/")
    m.cwd = m.root


def install(vfs, m, setup, bits=0):
    """Create the initial nodes of a case on both sides (clashing ones are left out); ``bits``:
    which directories of the sandbox are provided lazily instead."""
    kept = []
    for item in setup:
        try:
            if "data" in item:
                m.write(item["p"], item["data"])
            else:
                m.mkdir(item["p"], True, True)
        except Refused:
            continue
        kept.append(item)
    given = lazy.roots(m, bits) if bits else []
    tops = [n.path() for n in given]
    for item in kept:
        if any(item["p"] == t or item["p"].startswith(t + "/") for t in tops):
            continue
        if "data" in item:
            vfs.write_file(item["p"], item["data"])
        else:
            vfs.mkdir(item["p"], parents=True, exist_ok=True)
    for node in given:
        lazy.mount(vfs, node, bits)

"""Runner-side plumbing shared by all checks: cases, verdicts, scratch space, workers.

A *case* is plain JSON.  Hypothesis draws bytes, a check's ``decode`` turns them into a
case, and ``run(case, env)`` plays it against the real code and an oracle.  Everything a
case does is a pure function of the case, so the JSON file alone replays it.
"""
from __future__ import annotations

import hashlib
import json
import os
import shutil
import sys
import tempfile
import traceback

REPO = os.environ.get("SANDFS_REPO", "/repo")


class Violation(Exception):
    """The code under test broke the property."""


class Skip(Exception):
    """The case says nothing about the property (counted, not judged)."""


def require(cond, msg, *details):
    if not cond:
        text = msg
        for d in details:
            text += "\n    " + (d if isinstance(d, str) else repr(d))
        raise Violation(text)


class Bytes:
    """Turns drawn bytes into small decisions; runs out into zeros (the simplest choice)."""

    def __init__(self, raw: bytes):
        self.raw, self.i = raw, 0

    def u8(self):
        v = self.raw[self.i] if self.i < len(self.raw) else 0
        self.i += 1
        return v

    def u16(self):
        return self.u8() * 256 + self.u8()

    def below(self, n):
        return (self.u16() if n > 64 else self.u8()) % n

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def chance(self, num, den=100):
        """True with probability num/den; the all-zero input says False."""
        return self.u8() % den >= den - num

    def weighted(self, table):
        """table: list of (weight, value)."""
        total = sum(w for w, _ in table)
        k = self.below(total)
        for w, v in table:
            if k < w:
                return v
            k -= w
        raise AssertionError


class Env:
    """What a check may use besides the code: scratch directories, removed after the case."""

    def __init__(self, base):
        self.base = base
        self.dirs = []
        self.labels = set()

    def scratch(self):
        d = tempfile.mkdtemp(prefix="case-", dir=self.base)
        self.dirs.append(d)
        return d

    def label(self, *names):
        self.labels.update(names)

    def close(self):
        for d in self.dirs:
            for root, subdirs, _ in os.walk(d):
                for s in [root] + [os.path.join(root, x) for x in subdirs]:
                    if not os.path.islink(s):
                        try:
                            os.chmod(s, 0o700)
                        except OSError:
                            pass
            shutil.rmtree(d, ignore_errors=True)
        self.dirs = []


class Check:
    id = ""
    rule = ""
    cfg_bytes = 32
    op_bytes = 14
    max_ops = 30
    min_ops = 0
    quick = 4000
    thorough = 120000
    assumptions: list[str] = []
    corpus: list = []  # explicit cases, played before the generated ones

    def decode(self, cfg: Bytes, ops: list[Bytes]):
        raise NotImplementedError

    def run(self, case, env: Env):
        """Raise Violation, or return True if the case was non-trivial by ``rule``."""
        raise NotImplementedError


def through_sut(exc) -> bool:
    """Did this exception come out of the code under test?"""
    prefix = os.path.join(os.path.realpath(REPO), "sandfs") + os.sep
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(prefix):
            return True
        tb = tb.tb_next
    return False


def play(check, case, base):
    """-> (nontrivial, labels). Raises Violation; anything else is a harness error."""
    env = Env(base)
    try:
        try:
            nontrivial = bool(check.run(case, env))
        except (Violation, Skip):
            raise
        except RecursionError as exc:
            if through_sut(exc):
                raise Violation("recursion without end") from exc
            raise
        except Exception as exc:
            if through_sut(exc):
                tail = "".join(traceback.format_exception(exc)[-6:])
                raise Violation(f"unexpected {type(exc).__name__}: {exc}\n{tail}") from exc
            raise
        return nontrivial, env.labels
    except Skip:
        return False, env.labels | {"skipped"}
    finally:
        env.close()


def case_hash(case) -> str:
    blob = json.dumps(case, sort_keys=True, ensure_ascii=True)
    return hashlib.blake2b(blob.encode(), digest_size=8).hexdigest()


def derive_seed(*parts) -> int:
    blob = "/".join(str(p) for p in parts)
    return int.from_bytes(hashlib.blake2b(blob.encode(), digest_size=7).digest(), "big")


def import_sut():
    sys.path.insert(0, REPO)
    import sandfs

    got = os.path.realpath(sandfs.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"imported sandfs from {got}, not from {REPO}")
    return sandfs

"""Other spellings of a location."""
from __future__ import annotations

from pbt.core import Bytes

NOISE = ["zz", "a", "b", "nope.txt", "..."]


def spelling(path, cwd, raw, relative_ok=True):
    """A spelling of the canonical absolute ``path``, as seen from ``cwd``; raw: list of ints."""
    b = Bytes(bytes(raw))
    parts = [x for x in path.split("/") if x]
    out = []
    if relative_ok and b.chance(50):
        here = [x for x in cwd.split("/") if x]
        there = list(parts)
        climbed_all = True
        while here and there and here[0] == there[0] and b.chance(70):
            here, there = here[1:], there[1:]
            climbed_all = False
        # more '..' than there are levels is harmless only when climbing from the root down
        extra = b.below(3) if climbed_all else 0
        parts, absolute = [".."] * (len(here) + extra) + there, False
    else:
        absolute = True
        if b.chance(30):
            parts = [".."] * (1 + b.below(4)) + parts
    for part in parts:
        k = b.below(9)
        if k == 1:
            out.append(".")
        elif k == 2:
            out.append("")
        elif k == 3:
            out += [b.pick(NOISE), ".."]
        elif k == 4:
            out += [b.pick(NOISE), b.pick(NOISE), "..", ".", ".."]
        out.append(part)
    tail = b.below(8)
    if tail == 1:
        out.append("")
    elif tail == 2:
        out.append(".")
    elif tail == 3:
        out += [b.pick(NOISE), ".."]
    elif tail == 4:
        out += ["", "", ""]
    text = "/".join(out)
    if absolute:
        slashes = b.pick(["/", "/", "//", "///", "/./"])
        return slashes + text.lstrip("/")
    text = text.lstrip("/")
    return text or "."

#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the checks' own descriptions and tools/design_tail.md,
so that the text per property cannot drift from what runs.  Run with python3 from /verif."""
import json
import pathlib
import sys
import textwrap

V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
sys.dont_write_bytecode = True
from pbt import core, registry  # noqa: E402

core.import_sut()
sys.path.insert(0, str(V / "tools"))
from design_notes import NOTES  # noqa: E402
from gen_manifest import T  # noqa: E402

props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines() if x.strip()]
out = [(V / "tools" / "design_head.md").read_text().rstrip(), ""]
wrap = lambda s: textwrap.fill(" ".join(s.split()), 98, break_long_words=False, break_on_hyphens=False)
for p in props:
    c = registry.load(p["id"])
    out += [f"### {p['id']} {p['title']}", "", wrap(f"*Technique:* {T[p['id']]}."), ""]
    what, _, rule = " ".join(c.rule.split()).partition("; non-trivial: ")
    out += [wrap(f"*Generated and checked:* {what}."), "",
            wrap(f"*Counted as non-trivial:* {rule}."), ""]
    if p["id"] in NOTES:
        out += [wrap(f"*Oracle and reach:* {NOTES[p['id']]}"), ""]
    if c.assumptions:
        out += ["*Bounds beyond the generator's sizes:* "] + [wrap("- " + a + ".") for a in c.assumptions] + [""]
    out += [wrap(f"*Size:* up to {c.max_ops} operations per case; {c.quick} cases quick, "
                 f"{c.thorough} thorough (or until 660 s)."), ""]
out += [(V / "tools" / "design_tail.md").read_text().rstrip(), ""]
seeded = V / "tools" / "caught.json"
if seeded.exists():
    doc = json.loads(seeded.read_text())
    out += ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    for k in sorted(doc):
        m = json.loads((V / "seeded" / k / "meta.json").read_text())
        out.append(f"| {k} | {m['property']} | {m['needs']} | {', '.join(doc[k]) or 'missed'} |")
    out.append("")
(V / "DESIGN.md").write_text("\n".join(out))

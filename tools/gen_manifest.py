#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
T = {
    "C01": "stateful model-based testing against a reference filesystem",
    "C02": "metamorphic testing: random spellings of paths against a lexical reference",
    "C03": "stateful testing with injected faults; full-state comparison around refusals",
    "C04": "stateful model-based testing of versions and optimistic writes",
    "C05": "stateful testing with random policies; invariant over protected nodes",
    "C06": "stateful testing with unguessable tokens in unreadable files; leak oracle",
    "C07": "generated trees, views and commands; exact visible-set oracle and leak tokens",
    "C08": "generated trees, views and commands; differential against an unrestricted twin",
    "C09": "stateful model-based testing of mounts; tree/store equality after each step",
    "C10": "stateful testing with generated external store edits; conflict oracle",
    "C11": "fuzzing of adapter paths and link layouts; outside-the-root invariant",
    "C12": "stateful testing with snapshot/restore; full-state round trip",
    "C13": "stateful testing; event log against the state difference of each step",
    "C14": "generated corpora and queries against a reference search; index differential",
    "C15": "stateful testing of search-view paths against a reference search",
    "C16": "grammar-based and mutation fuzzing of command lines; totality oracle",
    "C17": "grammar-based fuzzing with recorder commands; nothing unlisted may run",
    "C18": "differential testing of a limited shell against an unlimited twin",
    "C19": "generated pipelines with random quoting against a reference evaluator",
    "C20": "generated trees and commands against reference implementations",
    "C21": "stateful model-based testing with counting, changing and failing providers",
    "C22": "generated host scripts against a reference file model; state difference oracle",
    "C23": "generated trees and hostile provider names; byte-exact export comparison",
    "C24": "generated snippets: reference interpreter for output, host-effect monitor",
    "C25": "differential testing of the CLI against a shell built from the same options",
    "C26": "stateful testing under an audit-hook monitor with decoy host files",
    "C27": "stateful testing; frame condition over sandboxes, copies and snapshots",
    "C28": "generated trees; mutual agreement of all enumerations and a model",
    "C29": "stateful model-based testing of the adapters' own interface",
    "C30": "generated registrations and command lines with recording handlers; reference evaluator",
    "C31": "stateful testing with hook failures injected at any event; consistency oracle",
    "C32": "generated command lines (operands, flags, quoting) against a reference filesystem",
    "C33": "stateful testing; every node's times against the clock around each operation",
    "C34": "stateful testing with injected provider faults; set of applicable reasons from a model",
    "C35": "metamorphic testing: the same history on a plain and a feature-laden twin",
}
NOTE = ("Random exploration: every generated case is decided against an explicit oracle on the "
        "real code, with shrinking to a replay file; says nothing about inputs outside the "
        "generator's bounds (DESIGN.md). Trusts the oracle in pbt/, Hypothesis and CPython.")
def main():
    props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines() if x.strip()]
    have = {p.name[:3].upper() for p in (V / "pbt" / "checks").glob("c[0-9][0-9]_*.py")}
    checks, missing = [], []
    for p in props:
        i = p["id"]
        if i in have:
            checks.append({"property": i,
                           "quick_cmd": f"python3 pbt/run.py {i} --tier quick",
                           "thorough_cmd": f"python3 pbt/run.py {i} --tier thorough",
                           "technique": T[i], "level": "exploration", "level_note": NOTE})
        else:
            missing.append({"property": i, "reason": "check still being built"})
    out = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
           "not_applicable": missing,
           "notes": "No hooks: the checks import the code from /repo's working tree."}
    (V / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")


if __name__ == "__main__":
    main()

"""One worker process: plays corpus and generated cases of one property, or one replay.

Started by run.py with a JSON job on stdin; writes its result to job["out"].
"""
from __future__ import annotations

import json
import os
import resource
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def drop_privileges():
    if os.getuid() == 0:
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError as exc:  # still contained by construction, see DESIGN.md
            print(f"note: could not drop privileges ({exc})", file=sys.stderr)


def main():
    job = json.load(sys.stdin)
    drop_privileges()
    os.umask(0o022)
    base = job["scratch"]
    os.environ.update(HOME=base, TMPDIR=base)
    os.chdir(base)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    from pbt import core
    core.import_sut()
    from pbt import registry
    check = registry.load(job["property"])

    res = {"evaluations": 0, "nontrivial": [], "labels": {}, "samples": [], "violation": None,
           "first_violation": None, "error": None, "done": False}
    seen = set()
    started = time.monotonic()
    limit = job["case_cpu_s"]
    state = {"case": None}

    def dump():
        res["nontrivial"] = sorted(seen)
        tmp = job["out"] + ".tmp"
        with open(tmp, "w") as fh:
            json.dump(res, fh)
        os.replace(tmp, job["out"])

    def note(case, msg):
        entry = {"case": case, "message": msg}
        if res["first_violation"] is None:
            res["first_violation"] = entry
        best = res["violation"]
        if best is None or len(json.dumps(case)) <= len(json.dumps(best["case"])):
            res["violation"] = entry
        dump()

    def on_timer(signum, frame):
        # A case that burns this much CPU is a hang: record it and leave at once.
        if state["case"] is not None:
            note(state["case"], f"no end after {limit} s of CPU time")
            os._exit(3)

    signal.signal(signal.SIGPROF, on_timer)

    def one(case):
        state["case"] = case
        signal.setitimer(signal.ITIMER_PROF, limit)
        try:
            return core.play(check, case, base)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            state["case"] = None

    def judged(case):
        nontrivial, labels = one(case)
        res["evaluations"] += 1
        for lab in labels:
            res["labels"][lab] = res["labels"].get(lab, 0) + 1
        if nontrivial:
            h = core.case_hash(case)
            if h not in seen:
                seen.add(h)
                n = len(seen)
                if len(res["samples"]) < 3 and n in (1, 20, 400):
                    if len(json.dumps(case)) < 6000:
                        res["samples"].append(case)

    try:
        if job["mode"] == "replay":
            try:
                one(job["case"])
            except core.Violation as exc:
                note(job["case"], str(exc))
            res["evaluations"] = 1
            res["done"] = True
            dump()
            return

        for case in check.corpus[job["index"]::job["workers"]]:
            try:
                judged(case)
            except core.Violation as exc:
                note(case, str(exc))
                res["done"] = True
                dump()
                return

        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        from hypothesis import strategies as st

        op = st.binary(min_size=check.op_bytes, max_size=check.op_bytes)
        mx = check.max_ops
        if mx:
            short = st.lists(op, min_size=check.min_ops, max_size=max(check.min_ops, mx // 3))
            long_ = st.lists(op, min_size=max(check.min_ops, mx // 3), max_size=mx)
            ops = st.one_of(short, long_, long_)
        else:
            ops = st.just([])

        def decode(pair):
            cfg, raw = pair
            return check.decode(core.Bytes(cfg), [core.Bytes(o) for o in raw])

        cases = st.tuples(st.binary(min_size=check.cfg_bytes, max_size=check.cfg_bytes),
                          ops).map(decode)
        deadline = job["deadline_s"]

        def body(case):
            if time.monotonic() - started > deadline and res["violation"] is None:
                res["labels"]["out-of-time"] = res["labels"].get("out-of-time", 0) + 1
                return
            try:
                judged(case)
            except core.Violation as exc:
                note(case, str(exc))
                raise

        phases = [Phase.generate]
        if job["shrink"]:
            phases.append(Phase.shrink)
        test = given(cases)(body)
        test = hypothesis.seed(job["seed"])(test)
        test = settings(max_examples=job["examples"], database=None, deadline=None,
                        phases=phases, derandomize=False, report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck),
                        print_blob=False, verbosity=hypothesis.Verbosity.quiet)(test)
        try:
            test()
        except core.Violation:
            pass
        except BaseException as exc:
            if res["violation"] is None:
                raise
            # flaky or interrupted shrinking: the recorded failing case stands
            res["shrink_note"] = f"{type(exc).__name__}: {exc}"[:300]

        if res["violation"] is not None and job["shrink"]:
            shrink_lists(res, one, note, core)
        res["done"] = True
        dump()
    except BaseException as exc:
        import traceback
        res["error"] = "".join(traceback.format_exception(exc))[-4000:]
        dump()
        raise SystemExit(2)


def shrink_lists(res, one, note, core):
    """Greedy deletion of operations on top of Hypothesis' own shrinking."""
    case = res["violation"]["case"]
    if not isinstance(case, dict):
        return
    t0 = time.monotonic()
    changed = True
    while changed and time.monotonic() - t0 < 30:
        changed = False
        for key in list(case):
            if not isinstance(case[key], list):
                continue
            i = len(case[key]) - 1
            while i >= 0 and time.monotonic() - t0 < 30:
                smaller = dict(case)
                smaller[key] = case[key][:i] + case[key][i + 1:]
                try:
                    one(smaller)
                except core.Violation as exc:
                    note(smaller, str(exc))
                    case = smaller
                    changed = True
                except Exception:
                    pass
                i -= 1


if __name__ == "__main__":
    main()

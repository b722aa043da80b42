#!/usr/bin/env python3
"""Entry point of every check.

  run.py C01 [--tier quick|thorough] [--seed N] [--examples N] [--workers N]
  run.py C01 --replay FILE

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself failed.
"""
from __future__ import annotations

import argparse
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import time

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent
sys.path.insert(0, str(VERIF))
sys.dont_write_bytecode = True
PY = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"


def worker_env(scratch):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "SANDFS_REPO")}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
               PYTHONHASHSEED="0", LC_ALL="C.UTF-8", TZ="UTC", HOME=scratch, TMPDIR=scratch)
    return env


class Pool:
    def __init__(self):
        self.base = tempfile.mkdtemp(prefix="sandfs-pbt-")
        os.chmod(self.base, 0o711)
        self.n = 0
        self.procs = []

    def start(self, job):
        self.n += 1
        scratch = os.path.join(self.base, f"w{self.n}")
        os.mkdir(scratch, 0o700)
        if os.getuid() == 0:
            try:
                os.chown(scratch, 65534, 65534)
            except OSError:
                os.chmod(scratch, 0o777)
        job = dict(job, scratch=scratch, out=os.path.join(scratch, "result.json"))
        err = open(os.path.join(self.base, f"w{self.n}.err"), "wb+")
        proc = subprocess.Popen([PY, str(HERE / "worker.py")], stdin=subprocess.PIPE,
                                stdout=subprocess.DEVNULL, stderr=err, cwd=scratch,
                                env=worker_env(scratch), start_new_session=True)
        proc.stdin.write(json.dumps(job).encode())
        proc.stdin.close()
        proc.job, proc.err = job, err
        self.procs.append(proc)
        return proc

    def result(self, proc):
        try:
            with open(proc.job["out"]) as fh:
                return json.load(fh)
        except (OSError, ValueError):
            return None

    def stderr(self, proc):
        proc.err.seek(0)
        return proc.err.read().decode(errors="replace")[-2000:]

    def kill(self, proc):
        try:
            os.killpg(proc.pid, 9)
        except OSError:
            pass
        proc.wait()

    def close(self):
        for p in self.procs:
            self.kill(p)
        shutil.rmtree(self.base, ignore_errors=True)


def run_one(pool, job, timeout):
    proc = pool.start(job)
    try:
        proc.wait(timeout)
    except subprocess.TimeoutExpired:
        pool.kill(proc)
    return pool.result(proc), proc


def replay_case(pool, pid, case, cpu):
    res, proc = run_one(pool, dict(mode="replay", property=pid, case=case, case_cpu_s=cpu),
                        cpu * 3 + 60)
    if res is None or res.get("error"):
        return None, (res or {}).get("error") or pool.stderr(proc)
    return res["violation"], None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--examples", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args()
    pid = args.property
    cpu = 60 if args.tier == "quick" else 120
    pool = Pool()
    try:
        if args.replay:
            return do_replay(pool, args, pid, cpu)
        return campaign(pool, args, pid, cpu)
    finally:
        pool.close()


def do_replay(pool, args, pid, cpu):
    doc = json.loads(pathlib.Path(args.replay).read_text())
    if doc.get("kind") == "campaign":
        job = dict(doc["job"])
        res, proc = run_one(pool, job, 900)
        if res is None or res.get("error"):
            print((res or {}).get("error") or pool.stderr(proc), file=sys.stderr)
            return 2
        found = res["first_violation"]
    else:
        found, error = replay_case(pool, pid, doc["case"], cpu)
        if error:
            print(error, file=sys.stderr)
            return 2
    if found:
        print(found["message"])
        print(f"VIOLATION property={pid} replay={args.replay}")
        return 1
    print(f"{pid}: the replayed case holds")
    return 0


def campaign(pool, args, pid, cpu):
    from pbt import core, registry  # noqa: F401  (metadata only; workers do the work)
    t0 = time.time()
    meta = registry_meta(pid)
    examples = args.examples or (meta["quick"] if args.tier == "quick" else meta["thorough"])
    workers = max(1, min(args.workers or 8, os.cpu_count() or 1, examples // 20 or 1))
    deadline = 400 if args.tier == "quick" else 660
    hard = deadline + 150
    jobs = []
    for i in range(workers):
        jobs.append(dict(mode="campaign", property=pid, index=i, workers=workers,
                         seed=core.derive_seed(args.seed, pid, args.tier, i),
                         examples=-(-examples // workers), case_cpu_s=cpu,
                         deadline_s=deadline, shrink=True))
    procs = [pool.start(j) for j in jobs]
    first_fail = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.05)
        now = time.time()
        if first_fail is None:
            for p in procs:
                r = pool.result(p)
                if r and r.get("violation"):
                    first_fail = now
                    break
        if (first_fail and now - first_fail > 60) or now - t0 > hard:
            for p in procs:
                pool.kill(p)
        elif first_fail:
            # one failure is enough: stop workers that have found none, keep the shrinking ones
            failing = [p for p in procs if (pool.result(p) or {}).get("violation")]
            for p in procs:
                if p not in failing and p.poll() is None:
                    pool.kill(p)
            if any(p.poll() is not None for p in failing):
                for p in procs:
                    pool.kill(p)
    results = [(p, pool.result(p)) for p in procs]
    harness_errors = []
    for p, r in results:
        if r and r.get("error"):
            harness_errors.append(r["error"])
        elif r is None and not first_fail:
            harness_errors.append(f"worker {p.job['index']} gave no result "
                                  f"(exit {p.returncode})\n" + pool.stderr(p))
    results = [(p, r) for p, r in results if r]
    violation = confirm(pool, pid, results, cpu, args)
    nontrivial, labels, samples, evaluations = set(), {}, [], 0
    for _, r in results:
        evaluations += r["evaluations"]
        nontrivial.update(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples.extend(r["samples"])
    evidence = {
        "property": pid, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(nontrivial),
            "rule": meta["rule"], "samples": samples[:6], "labels": dict(sorted(labels.items())),
            "workers": workers, "corpus_cases": meta["corpus"],
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    ev = VERIF / "evidence"
    ev.mkdir(exist_ok=True)
    (ev / f"{pid}.json").write_text(json.dumps(evidence, indent=1, ensure_ascii=True) + "\n")
    for line in known_findings(pid):
        print(line)
    print(f"{pid} {args.tier}: {evaluations} cases, {len(nontrivial)} distinct non-trivial, "
          f"{evidence['wall_s']} s")
    if args.verbose:
        print(json.dumps(labels, sort_keys=True))
    if violation:
        path, message = violation
        print(message)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if harness_errors:
        print(harness_errors[0], file=sys.stderr)
        return 2
    if evaluations == 0:
        print("nothing was evaluated", file=sys.stderr)
        return 2
    return 0


def confirm(pool, pid, results, cpu, args):
    """A violation counts once its replay fails again in a fresh process."""
    failing = [(p, r) for p, r in results if r.get("violation")]
    if not failing:
        return None
    failing.sort(key=lambda pr: len(json.dumps(pr[1]["violation"]["case"])))
    out = VERIF / "evidence" / "replays"
    out.mkdir(parents=True, exist_ok=True)
    from pbt import core
    for _, r in failing:
        for entry in (r["violation"], r["first_violation"]):
            for _ in range(2):
                found, _err = replay_case(pool, pid, entry["case"], cpu)
                if found:
                    path = out / f"{pid}-{core.case_hash(entry['case'])}.json"
                    path.write_text(json.dumps({"property": pid, "kind": "case",
                                                "message": found["message"],
                                                "case": entry["case"]}, indent=1) + "\n")
                    return str(path), found["message"]
    # Only in the company of earlier cases (state leaking between sandboxes): replay the campaign.
    for p, r in failing:
        job = dict(p.job, shrink=False, deadline_s=10**6)
        res, _ = run_one(pool, job, 600)
        if res and res.get("first_violation"):
            path = out / f"{pid}-campaign-{job['seed']}.json"
            for k in ("scratch", "out"):
                job.pop(k)
            path.write_text(json.dumps({"property": pid, "kind": "campaign", "job": job,
                                        "message": res["first_violation"]["message"],
                                        "case": res["first_violation"]["case"]}, indent=1) + "\n")
            return str(path), res["first_violation"]["message"]
    print("note: a failure did not reproduce and was dropped: "
          + failing[0][1]["violation"]["message"][:400], file=sys.stderr)
    return None


def known_findings(pid):
    path = VERIF / "known_findings.txt"
    if not path.exists():
        return []
    return [ln for ln in path.read_text().splitlines()
            if ln.startswith(f"KNOWN-FINDING: property={pid} ")]


def registry_meta(pid):
    """Static facts of a check, read in a child so that the parent never imports /repo."""
    code = ("import sys,json; sys.path.insert(0,%r); from pbt import core; core.import_sut();"
            "from pbt import registry; c=registry.load(%r);"
            "print(json.dumps(dict(quick=c.quick,thorough=c.thorough,rule=' '.join(c.rule.split()),"
            "assumptions=c.assumptions,corpus=len(c.corpus))))" % (str(VERIF), pid))
    scratch = tempfile.mkdtemp(prefix="sandfs-pbt-meta-")
    try:
        out = subprocess.run([PY, "-c", code], env=worker_env(scratch), capture_output=True,
                             text=True, cwd=scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if out.returncode:
        print(out.stderr, file=sys.stderr)
        raise SystemExit(2)
    return json.loads(out.stdout.splitlines()[-1])


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Runs checks against planted bugs in scratch copies; updates tools/caught.json.
usage: catch.py [--all-checks] [--also C01,C02] [ids...]   (not part of any check)"""
import argparse
import json
import os
import pathlib
import shutil
import subprocess
import tempfile
import time

V = pathlib.Path(__file__).resolve().parent.parent
ap = argparse.ArgumentParser()
ap.add_argument("--all-checks", action="store_true")
ap.add_argument("--also", default="")
ap.add_argument("--seed", default="1")
ap.add_argument("--dir", default=str(V / "seeded"))
ap.add_argument("ids", nargs="*")
args = ap.parse_args()
table_path = V / "tools" / "caught.json"
table = json.loads(table_path.read_text()) if table_path.exists() else {}
every = sorted(p.name[:3].upper() for p in (V / "pbt" / "checks").glob("c[0-9][0-9]_*.py"))
for d in sorted(pathlib.Path(args.dir).iterdir()):
    if args.ids and d.name not in args.ids and not any(d.name.startswith(i + "-") for i in args.ids):
        continue
    own = json.loads((d / "meta.json").read_text())["property"]
    todo = every if args.all_checks else [own] + [x for x in args.also.split(",") if x]
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="catch-", dir="/tmp"))
    os.chmod(tmp, 0o755)
    try:
        shutil.copytree(os.environ.get("SANDFS_BASE", "/repo"), tmp / "repo", ignore=shutil.ignore_patterns("__pycache__", ".venv"))
        subprocess.run(["git", "-C", str(tmp / "repo"), "apply", str(d / "patch.diff")], check=True)
        got = set(table.get(d.name, []))
        for pid in todo:
            t0 = time.time()
            r = subprocess.run(["python3", "pbt/run.py", pid, "--seed", args.seed], cwd=V,
                               capture_output=True, text=True,
                               env=dict(os.environ, SANDFS_REPO=str(tmp / "repo")))
            got.discard(pid)
            if r.returncode == 1 and f"VIOLATION property={pid}" in r.stdout:
                got.add(pid)
            elif r.returncode == 2:
                print("   HARNESS ERROR", d.name, pid, (r.stdout + r.stderr)[-1500:])
            if pid == own or pid in got:
                print(f"{'caught' if pid in got else 'MISSED'} {d.name} by {pid} "
                      f"({time.time() - t0:.0f} s)", flush=True)
        if d.parent != V / "seeded":
            continue
        table[d.name] = sorted(got)
        table_path.write_text(json.dumps({k: table[k] for k in sorted(table) if (V / "seeded" / k).exists()}, indent=1) + "\n")
    finally:
        shutil.rmtree(tmp)

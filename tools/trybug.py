#!/usr/bin/env python3
"""trybug.py [-t TIER] [-s SEED] [-p PIDS] ID...   run the checks against planted bugs (in scratch copies)."""
import argparse, json, os, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-t", default="quick"); ap.add_argument("-s", default="1"); ap.add_argument("-p", default="")
ap.add_argument("ids", nargs="*")
a = ap.parse_args()
for i in a.ids or sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    d = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="verif-bug-")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.run(["cp", "-a", "/repo/src", tmp], check=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=tmp, check=True)
        for pid in a.p.split(",") if a.p else [meta["property"]]:
            r = subprocess.run(["./check.sh", pid, a.t], cwd=ROOT, capture_output=True, text=True,
                               env={**os.environ, "VERIF_REPO": tmp, "VERIF_SEED": a.s, "VERIF_EVIDENCE": tmp + "/ev"})
            first = [l for l in r.stdout.splitlines() if l.startswith("first")]
            print(i, pid, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR " + r.stderr[-1500:]),
                  " ".join(l for l in r.stdout.splitlines() if " violations" in l), (first or [""])[0][:160], flush=True)
    finally:
        shutil.rmtree(tmp)

"""Running TLC: validation of recorded events against spec/Trace.tla and
exhaustive runs of the models spec/MC_*.tla."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"


class TlcError(Exception):
    """the checker itself failed: no verdict"""


def java(args, env, scratch, timeout, heap="1500m", level=1):
    # level 1: less compilation, which dominates short runs
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-XX:TieredStopAtLevel={level}", f"-Xmx{heap}",
           "-Xss512m", f"-Djava.io.tmpdir={scratch}", "-cp", CP, "tlc2.TLC", *args]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env={**os.environ, **env}, capture_output=True,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        raise TlcError(f"TLC timed out after {timeout} s") from e
    return p


def texts_of(t, out):
    """texts whose lower case is worth computing once"""
    if isinstance(t, dict):
        if t.get("k") == "obj" and "m" in t:
            for p in t["m"]:
                out.add(p[0])
                texts_of(p[1], out)
            return
        for key, v in t.items():
            if key in ("attr", "schema", "sub", "n", "urn", "a") and isinstance(v, str):
                out.add(v)
            else:
                texts_of(v, out)
    elif isinstance(t, list):
        for x in t:
            texts_of(x, out)


def lean(e):
    """only the outcome matters where nothing but raising is forbidden"""
    if e["op"] == "nothing":
        return {"id": e["id"], "op": "nothing", "a": {"op": e["a"]["op"]}, "r": e["r"]}
    return e


def validate(events, schemas, builtin, jobs=8, timeout=800):
    """-> (mismatches [(event id, clauses)], stats)"""
    if not events:
        return [], {"events": 0}
    jobs = max(1, min(jobs, (len(events) + 149) // 150))
    scratch = tempfile.mkdtemp(prefix="verif-trace-")
    try:
        lines = [(len(s), i, s) for i, s in
                 enumerate(json.dumps(lean(e), ensure_ascii=True) for e in events)]
        chunks = [[] for _ in range(jobs)]
        load = [0] * jobs
        for size, i, s in sorted(lines, key=lambda x: (-x[0], x[1])):
            j = load.index(min(load))
            load[j] += size + 300
            chunks[j].append((i, s))

        def one(j):
            d = os.path.join(scratch, str(j))
            os.makedirs(os.path.join(d, "tmp"))
            known = set()
            texts_of(builtin, known)
            texts_of(schemas, known)
            for i, s in chunks[j]:
                if events[i]["op"] != "nothing":
                    texts_of(events[i]["a"], known)
                    texts_of(events[i]["r"], known)
            path = os.path.join(d, "trace.ndjson")
            with open(path, "w") as f:
                f.write(json.dumps({"known": sorted(known), "schemas": schemas}) + "\n")
                for i, s in sorted(chunks[j]):
                    f.write(s + "\n")
            p = java(["-workers", "1", "-noTE", "-metadir", os.path.join(d, "meta"), "-config", "Trace.cfg",
                      "Trace.tla"], {"TRACE_FILE": path}, os.path.join(d, "tmp"), timeout,
                     level=1 if len(events) < 30000 else 4)
            bad, done = [], None
            for line in p.stdout.splitlines():
                if line.startswith('"{'):
                    x = json.loads(json.loads(line))
                    if "mismatch" in x:
                        bad.append((x["mismatch"], x["clauses"]))
                    elif "done" in x:
                        done = x
            if done is None or done["done"] != len(chunks[j]) or done["bad"] != len(bad) or p.returncode != 0:
                keep = os.environ.get("VERIF_KEEP")
                if keep:
                    shutil.copy(path, keep)
                raise TlcError((p.stdout[-3000:] + p.stderr[-1000:]))
            m = re.search(r"(\d+) states generated, (\d+) distinct", p.stdout)
            return bad, int(m.group(2)) if m else 0

        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(one, range(jobs)))
        bad = [b for r in res for b in r[0]]
        return bad, {"events": len(events), "states": sum(r[1] for r in res), "runs": jobs}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def model(name, cfg=None, env=None, workers=4, timeout=800, heap="4g"):
    """exhaustive run of a model -> (ok, printed records, stats, tail)"""
    scratch = tempfile.mkdtemp(prefix="verif-mc-")
    try:
        p = java(["-workers", str(workers), "-noTE", "-metadir", os.path.join(scratch, "meta"),
                  "-config", cfg or name + ".cfg", name + ".tla"], env or {}, scratch, timeout, heap, level=1 if (env or {}).get("TIER") != "thorough" else 4)
        recs = []
        for line in p.stdout.splitlines():
            if line.startswith('"{'):
                recs.append(json.loads(json.loads(line)))
        m = re.search(r"(\d+) states generated, (\d+) distinct", p.stdout)
        stats = {"states": int(m.group(2)), "transitions": int(m.group(1))} if m else {}
        ok = p.returncode == 0 and "No error has been found" in p.stdout
        if not ok and not re.search(r"is violated|Assumption .* is false|Assert", p.stdout):
            raise TlcError(p.stdout[-3000:] + p.stderr[-1000:])
        return ok, recs, stats, p.stdout[-3000:]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

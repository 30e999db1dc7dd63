"""check.py PROPERTY [quick|thorough]

Decides one property of the code in /repo:
  1. the models of the property are explored exhaustively by TLC (their laws
     are checked and every behaviour they contain is written out as calls);
  2. these calls, and calls drawn at random from the specification's schemas,
     are made on the code and recorded;
  3. TLC checks every recorded call against spec/Trace.tla.
Exit 0: every call conforms.  Exit 1: VIOLATION line.  Exit 2: no verdict."""
import json
import os
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import tlc  # noqa: E402
from plan import PLAN  # noqa: E402

OUT = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def main():
    pid = sys.argv[1]
    tier = (sys.argv[2:] or [""])[0] or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()
    plan = PLAN[pid]
    n = plan[tier]
    models = plan.get("models", []) + (plan.get("deep", []) if tier == "thorough" else [])

    # models first, while the stimuli are being drawn and executed
    with ThreadPoolExecutor(4) as ex:
        runs = [(m, ex.submit(tlc.model, m["name"], m.get("cfg"), dict(m.get("env", {}), TIER=tier),
                              m.get("workers", max(2, JOBS // max(1, len(models)))), m.get("timeout", 840 if tier == "quick" else 6000))) for m in models]

        import calls
        import gen
        import stim
        import world

        g = gen.Gen(seed * 1000 + int(pid[1:]), world.BUILTIN, world.SMALL)
        known = findings(pid)
        w = world.World(g.synth + world.SMALL)
        random_calls = stim.STIM[pid](g, n) if n else []
        model_calls, mstates, mtrans, msum = [], 0, 0, []
        for m, f in runs:
            ok, recs, stats, tail = f.result()
            if not ok:
                raise tlc.TlcError(f"model {m['name']} does not satisfy its laws:\n{tail}")
            got = [(r["op"], r["a"]) for r in recs if "op" in r]
            got.sort(key=lambda x: json.dumps(x, sort_keys=True))     # TLC's workers print in any order
            got = [x for i, x in enumerate(got) if i == 0 or x != got[i - 1]]
            emitted = len(got)
            most = m.get("take" if tier == "quick" else "most", 10 ** 9)
            if len(got) > most:
                got = g.r.sample(got, most)
            if "wrap" in m:
                got = WRAP[m["wrap"]](g, got)
            model_calls += got
            mstates += stats["states"]
            mtrans += stats["transitions"]
            msum.append({"model": m["name"], "states": stats["states"], "transitions": stats["transitions"], "calls": emitted,
                         "calls_made": len(got)})
    todo = model_calls + random_calls
    events = execute(calls, w, todo)
    bad, stats = tlc.validate(events, g.synth + world.SMALL, world.BUILTIN, jobs=JOBS,
                              timeout=800 if tier == "quick" else 6000)
    violations, listed = [], []
    for i, clauses in sorted(bad, key=lambda x: x[0]):
        ev = events[i - 1]
        f = next((k for k in known if k["op"] == ev["op"] and k["a"] == ev["a"]
                  and ev["r"]["exc"].startswith(k["exc"])), None)
        (listed if f else violations).append((ev, clauses, f))
    for ev, clauses, f in listed:
        print(f"KNOWN-FINDING: property={pid} {f['what']}")
    replay = ""
    if violations:
        ev, clauses, _ = min(violations, key=lambda x: len(json.dumps(x[0])))
        os.makedirs(OUT, exist_ok=True)
        replay = os.path.join(OUT, f"replay-{pid}.json")
        with open(replay, "w") as f:
            json.dump({"property": pid, "seed": seed, "clauses": clauses, "event": ev, "violations": len(violations),
                       "schemas": g.synth + world.SMALL}, f)
    samples = [{"call": e["op"], "args": short(e["a"]), "result": short(e["r"])}
               for e in (events[:: max(1, len(events) // 3)] if events else [])][:3]
    nontrivial = len({json.dumps([e["op"], e["a"]], sort_keys=True) for e in events})
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": mstates + stats.get("states", 0), "transitions": mtrans + stats["events"],
            "traces_validated_against_impl": stats["events"], "distinct_calls": nontrivial,
            "accepted_by_code": sum(1 for e in events if not e["r"]["exc"] and not e["r"].get("iss")),
            "models": msum, "calls_from_models": len(model_calls), "calls_drawn": len(random_calls),
            "calls_by_kind": kinds(events), "samples": samples,
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - start, 1), "violations": len(violations),
    }
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(f"{pid} {tier}: {stats['events']} calls validated, {mstates} model states, {len(violations)} violations, "
          f"{time.time() - start:.1f} s")
    if violations:
        print("first:", ev["op"], json.dumps(clauses)[:600])
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    return 0


def wrap_seq(g, got):
    """histories over the calls of a model"""
    got = [x for x in got if x[0] not in ("query.pair", "round", "cont", "issues")]
    g.r.shuffle(got)
    return [("seq", {"calls": [{"op": op, "a": a} for op, a in got[i:i + 4]]}) for i in range(0, len(got), 4)]


def wrap_serve(g, got):
    """responses as second halves of exchanges"""
    import stim
    return [x for x in (stim.serving(g, op, a) for op, a in got) if x]


DETAILED = {"attr", "schema", "filter.parse", "path.parse", "get.parse", "post.parse", "put.parse", "patch.parse", "list.parse", "search.parse", "bulk.parse", "get.dump",
            "put.dump", "post.dump", "patch.dump", "delete.dump", "error.dump", "list.dump", "bulk.dump"}
WRAP = {
    "rel": lambda g, got: [("rel", {"op": op, "a": a}) for op, a in got if op != "query.pair"],
    "nothing": lambda g, got: [("nothing", {"op": op, "a": a}) for op, a in got],
    "details": lambda g, got: [("details", {"op": op, "a": a}) for op, a in got if op in DETAILED],
    "seq": wrap_seq,
    "serve": wrap_serve,
}


def execute(calls, w, todo):
    """make the calls (in several processes) and record their outcomes"""
    if len(todo) < 400:
        rs = [calls.run(w, op, a) for op, a in todo]
    else:
        import multiprocessing
        global _RUN
        _RUN = lambda part: [calls.run(w, op, a) for op, a in todo[part[0]:part[1]]]  # noqa: E731
        k = max(1, len(todo) // (JOBS * 4))
        parts = [(i, min(i + k, len(todo))) for i in range(0, len(todo), k)]
        with multiprocessing.get_context("fork").Pool(JOBS) as pool:
            rs = [r for part in pool.map(_part, parts, chunksize=1) for r in part]
    return [{"id": i + 1, "op": op, "a": a, "r": r} for i, ((op, a), r) in enumerate(zip(todo, rs))]


def _part(p):
    return _RUN(p)


def short(x, n=400):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."


def kinds(events):
    out = {}
    for e in events:
        k = e["op"] if e["op"] not in ("rel", "nothing") else f"{e['op']} {e['a']['op']}"
        out[k] = out.get(k, 0) + 1
    return out


def findings(pid):
    path = os.path.join(ROOT, "known_findings.json")
    with open(path) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == pid]


if __name__ == "__main__":
    try:
        code = main()
    except Exception:  # noqa: no verdict
        traceback.print_exc()
        code = 2
    sys.exit(code)

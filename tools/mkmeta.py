#!/usr/bin/env python3
"""Writes known_findings.json and MANIFEST.json."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {  # words of a fix subject -> property
 "a name assigned in": "C02", "assigning an extension": "C02", "reading or deleting below": "C02", "resource data is equal": "C02",
 "merging a non-blocking": "C03", "extracted issues": "C03", "popping issues": "C03", "infinite numbers": "C05",
 "booleans are not": "C04", "integers too big": "C05", "a schemas list with": "C05", "attributes keep enforced": "C04",
 "a schema document may": "C22", "authentication schemes": "C22", "'$ref' can be": "C01", "out-of-range filter": "C09",
 "parenthesised, bracketed": "C09", "logical operators": "C09", "a bracketed filter accepts": "C09", "a conjunction with": "C10",
 "presence of a multi-valued": "C10", "filter comparisons": "C10", "comparing a multi-valued": "C10", "a bracketed filter treats": "C10",
 "a patch path holding": "C13", "patch operations are": "C14", "a patch without": "C05", "patch operations with": "C05",
 "required sub-attributes": "C08", "a core attribute": "C06", "issues of extension": "C08", "issues of a patch": "C14",
 "sub-attributes of a read-only": "C14", "read-only sub-attributes": "C14", "zero and false": "C11", "sorting by empty": "C11",
 "a listed resource with": "C05", "a listed resource that": "C16", "a search request can": "C17", "the sort order": "C17",
 "a success status": "C15", "response headers": "C05", "bulk operation methods": "C18", "a malformed bulk": "C05",
 "a bulk response at": "C19", "every failed bulk": "C19", "a wrong status of a bulk": "C19", "parsing a request leaves": "C20",
 "quoted text in a patch": "C13", "a schema document without": "C05", "an attribute with an empty": "C02", "filter text value": "C09",
 "empty requested": "C17", "count or startIndex": "C05", "equal resources": "C11", "sorting by an empty": "C11",
 "refuse an extension": "C23", "leave the processor": "C23",
 "refuse text directly": "C13", "refuse an invalid sub-attribute": "C24", "name the type of": "C25", "a boolean given for a decimal": "C25",
 "an issue of a filter quotes": "C25", "a negative count and a start": "C26",
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "f0bb8e7.."], capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    pid = [v for k, v in PROP.items() if s.startswith(k)]
    if not pid:
        sys.exit("no property for: " + s)
    fixed.append(f"fixed: property={pid[0]} {h} before: not so that {s}")
with open(os.path.join(ROOT, "known_findings.json")) as f:
    kf = json.load(f)
kf["fixed"] = fixed
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
    json.dump(kf, f, indent=1)
    f.write("\n")

sys.path.insert(0, os.path.join(ROOT, "harness"))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    pl = PLAN[p["id"]]
    models = [m["name"] for m in pl.get("models", [])]
    checks.append({
        "property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
        "technique": "TLA+ specification checked by TLC; calls enumerated by the model and drawn from its schemas are made on the code and "
                     "every recorded outcome is validated against the specification by TLC",
        "level": "model_checking",
        "level_note": (f"models {', '.join(models)} explored exhaustively and replayed on the code; " if models else "")
                      + f"{pl['quick']} drawn calls (quick) / {pl['thorough']} (thorough) validated; " + pl.get("note", "bounded inputs, not a proof"),
    })
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": []}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")

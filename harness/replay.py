"""replay.py FILE: makes the recorded call of a VIOLATION again and checks it."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import calls  # noqa: E402
import tlc  # noqa: E402
import world  # noqa: E402

with open(sys.argv[1]) as f:
    x = json.load(f)
ev = x["event"]
ev["r"] = calls.run(world.World(x["schemas"]), ev["op"], ev["a"])
bad, _ = tlc.validate([ev], x["schemas"], world.BUILTIN, jobs=1)
print("call:", ev["op"], json.dumps(ev["a"]))
print("outcome:", json.dumps(ev["r"]))
for _, clauses in bad:
    print("violates:", json.dumps(clauses))
sys.exit(1 if bad else 0)

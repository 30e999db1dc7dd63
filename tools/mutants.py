#!/usr/bin/env python3
"""Small mechanical changes to the code, as a measure of the checks.

  mutants.py calls DIR            record the calls of every quick check and their outcomes on /repo
  mutants.py make DIR [FILE...]   list mutants of /repo/src
  mutants.py run DIR [-j N]       run the repository's tests against each; those that pass them are
                                  put to the recorded calls, up to the first outcome that differs
  mutants.py show DIR             mutants that pass the tests and change no recorded outcome

Outcomes are compared with those of the unchanged tree, which TLC has found to
conform; this only measures how far the calls reach and decides no property."""
import ast, copy, json, os, pickle, random, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(ROOT, "harness")
REPO = "/repo"
PY = "/opt/venv/bin/python"


# ------------------------------------------------------------------ calls
def record(out):
    sys.path.insert(0, HARNESS)
    import calls, check, gen, stim, tlc, world
    from plan import PLAN
    from concurrent.futures import ThreadPoolExecutor
    names = sorted({m["name"] for p in PLAN.values() for m in p.get("models", [])})
    with ThreadPoolExecutor(2) as ex:
        runs = {n: ex.submit(tlc.model, n, None, {"TIER": "quick"}, 4, 1200) for n in names}
        models = {}
        for n, f in runs.items():
            got = [(r["op"], r["a"]) for r in f.result()[1] if "op" in r]
            got.sort(key=lambda x: json.dumps(x, sort_keys=True))
            models[n] = [x for i, x in enumerate(got) if i == 0 or x != got[i - 1]]
    allc = {}
    for pid, plan in PLAN.items():
        g = gen.Gen(1000 + int(pid[1:]), world.BUILTIN, world.SMALL)
        todo = stim.STIM[pid](g, plan["quick"])
        for m in plan.get("models", []):
            got = models[m["name"]]
            if len(got) > m.get("take", 10 ** 9):
                got = g.r.sample(got, m["take"])
            todo = todo + (check.WRAP[m["wrap"]](g, got) if "wrap" in m else got)
        random.Random(7).shuffle(todo)
        w = world.World(g.synth + world.SMALL)
        ev = check.execute(calls, w, todo)
        allc[pid] = {"synth": g.synth, "calls": [(e["op"], e["a"], e["r"]) for e in ev]}
        print(pid, len(ev), flush=True)
    split(out, allc)


def split(out, allc, step=200):
    """the calls in parts, so that a process holds few of them at a time"""
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, "calls.pkl"), "wb") as f:
        pickle.dump({p: c["synth"] for p, c in allc.items()}, f)
        for k in range(0, max(len(c["calls"]) for c in allc.values()), step):
            pickle.dump({p: c["calls"][k:k + step] for p, c in allc.items()}, f)


def compare(out):
    """in a process whose VERIF_REPO is the mutant"""
    sys.path.insert(0, HARNESS)
    sys.dont_write_bytecode = True
    f = open(os.path.join(out, "calls.pkl"), "rb")
    synth = pickle.load(f)
    try:
        import calls, world
        worlds = {p: world.World(s + world.SMALL) for p, s in synth.items()}
    except Exception as e:  # noqa
        print("KILLED import", type(e).__name__)
        return
    calls.PATIENCE = 10
    for _ in range(int(os.environ.get("PARTS", "1000000"))):
        try:
            part = pickle.load(f)
        except EOFError:
            break
        for p, c in part.items():
            for op, a, r in c:
                if calls.run(worlds[p], op, a) != r:
                    print("KILLED", p, op)
                    return
    print("SURVIVED")


# ------------------------------------------------------------------ mutants
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
DROP = {"lower", "strip", "upper", "casefold", "copy", "lstrip", "rstrip"}


def variants(tree):
    """(description, function that changes a copy of the tree)"""
    nodes = list(ast.walk(tree))
    docs = {id(n.body[0].value) for n in nodes if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef))
            and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}
    hints = set()
    for n in nodes:
        for h in ([n.annotation] if isinstance(n, (ast.arg, ast.AnnAssign)) else [n.returns] if isinstance(n, ast.FunctionDef) else []):
            if h is not None:
                hints |= {id(x) for x in ast.walk(h)}
    strs = {id(v) for n in nodes if isinstance(n, ast.JoinedStr) for v in n.values}
    for i, n in enumerate(nodes):
        if id(n) in hints or id(n) in docs:
            continue
        line = getattr(n, "lineno", 0)

        def at(f, i=i):
            def change():
                t = copy.deepcopy(tree)
                return t, f(list(ast.walk(t))[i], t)
            return change
        if isinstance(n, ast.Compare):
            for j, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    yield line, f"{type(op).__name__}->{new.__name__}", at(lambda x, t, j=j, new=new: x.ops.__setitem__(j, new()))
        if isinstance(n, ast.BoolOp):
            yield line, "and/or", at(lambda x, t: setattr(x, "op", ast.Or() if isinstance(x.op, ast.And) else ast.And()))
            for j in range(len(n.values)):
                yield line, f"drop operand {j}", at(lambda x, t, j=j: x.values.pop(j))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield line, "drop not", at(lambda x, t: replace(t, x, x.operand))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            yield line, "if True", at(lambda x, t: setattr(x, "test", ast.Constant(True)))
            if not isinstance(n, ast.While):
                yield line, "if False", at(lambda x, t: setattr(x, "test", ast.Constant(False)))
        if isinstance(n, ast.Constant) and id(n) not in strs:
            if isinstance(n.value, bool):
                yield line, f"{n.value}->{not n.value}", at(lambda x, t: setattr(x, "value", not x.value))
            elif isinstance(n.value, int):
                for d in (1, -1):
                    yield line, f"{n.value}->{n.value + d}", at(lambda x, t, d=d: setattr(x, "value", x.value + d))
            elif isinstance(n.value, str) and n.value:
                yield line, f"{n.value[:20]!r}->+X", at(lambda x, t: setattr(x, "value", x.value + "X"))
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in DROP:
                yield line, f"drop .{n.func.attr}()", at(lambda x, t: replace(t, x, x.func.value))
            for j, k in enumerate(n.keywords):
                if k.arg and not isinstance(k.value, ast.Constant):
                    yield line, f"drop {k.arg}=", at(lambda x, t, j=j: x.keywords.pop(j))
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and len(n.elts) > 1:
            for j in range(len(n.elts)):
                yield line, f"drop element {j}", at(lambda x, t, j=j: x.elts.pop(j))
        if isinstance(n, ast.Dict) and len(n.keys) > 1:
            for j in range(len(n.keys)):
                yield line, f"drop entry {j}", at(lambda x, t, j=j: (x.keys.pop(j), x.values.pop(j)))
        if isinstance(n, (ast.For, ast.comprehension)):
            for what in ("[:1]", "[1:]", "[:-1]", "[::-1]"):
                yield getattr(n.iter, "lineno", 0), f"loop{what}", at(lambda x, t, what=what: setattr(
                    x, "iter", ast.parse(f"list({ast.unparse(x.iter)}){what}", mode="eval").body))
        if isinstance(n, ast.BinOp):
            for a, b in ((ast.Add, ast.Sub), (ast.Sub, ast.Add)):
                if isinstance(n.op, a) and not any(isinstance(s, (ast.JoinedStr, ast.List, ast.Tuple)) or
                                                  (isinstance(s, ast.Constant) and isinstance(s.value, str)) for s in (n.left, n.right)):
                    yield line, f"{a.__name__}->{b.__name__}", at(lambda x, t, b=b: setattr(x, "op", b()))
        for field in ("body", "orelse", "finalbody"):
            for j, s in enumerate(getattr(n, field, []) if isinstance(getattr(n, field, None), list) else []):
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Return, ast.Delete, ast.If, ast.For, ast.Try)) \
                        and not isinstance(n, (ast.Module, ast.ClassDef)) and not (isinstance(s, ast.Expr) and id(s.value) in docs):
                    yield s.lineno, f"delete {type(s).__name__}", at(lambda x, t, f=field, j=j: getattr(x, f).__setitem__(j, ast.Pass()))
                    if isinstance(s, ast.Continue):
                        yield s.lineno, "continue->break", at(lambda x, t, f=field, j=j: getattr(x, f).__setitem__(j, ast.Break()))
                    if isinstance(s, ast.Break):
                        yield s.lineno, "break->continue", at(lambda x, t, f=field, j=j: getattr(x, f).__setitem__(j, ast.Continue()))


def replace(tree, old, new):
    for p in ast.walk(tree):
        for f, v in ast.iter_fields(p):
            if v is old:
                setattr(p, f, new)
            elif isinstance(v, list):
                for j, x in enumerate(v):
                    if x is old:
                        v[j] = new


def make(out, files):
    if not files:
        files = subprocess.run(["git", "-C", REPO, "ls-files", "src/*.py"], capture_output=True, text=True, check=True).stdout.split()
    muts, seen = [], set()
    for f in files:
        with open(os.path.join(REPO, f)) as h:
            src = h.read()
        tree = ast.parse(src)
        seen.add(ast.unparse(tree))
        for line, what, change in variants(tree):
            try:
                t, _ = change()
                new = ast.unparse(ast.fix_missing_locations(t))
            except Exception:  # noqa: not a program
                continue
            if new in seen:
                continue
            seen.add(new)
            muts.append({"id": len(muts), "file": f, "line": line, "what": what, "src": new})
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, "mutants.pkl"), "wb") as h:
        pickle.dump(muts, h)
    print(len(muts), "mutants")


def one(args):
    out, m, tests = args
    tmp = tempfile.mkdtemp(prefix="verif-mut-")
    env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
    try:
        subprocess.run(["cp", "-a", REPO + "/src", REPO + "/tests", REPO + "/pyproject.toml", tmp], check=True)
        with open(os.path.join(tmp, m["file"]), "w") as h:
            h.write(m["src"])
        try:
            if tests:
                r = subprocess.run([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "tests"], cwd=tmp, env=env,
                                   capture_output=True, text=True, timeout=60)
                if r.returncode:
                    return {"id": m["id"], "verdict": "TESTS"}
            r = subprocess.run([PY, os.path.abspath(__file__), "compare", out], cwd=tmp, env={**env, "VERIF_REPO": tmp}, capture_output=True,
                               text=True, timeout=3000)
        except subprocess.TimeoutExpired:
            return {"id": m["id"], "verdict": "TIMEOUT"}
        return {"id": m["id"], "verdict": (r.stdout.strip().splitlines() or ["ERROR " + r.stderr[-300:]])[-1]}
    finally:
        shutil.rmtree(tmp)


def run(out, jobs):
    with open(os.path.join(out, "mutants.pkl"), "rb") as h:
        muts = pickle.load(h)
    path = os.path.join(out, "verdicts.jsonl")
    done = {json.loads(l)["id"] for l in open(path)} if os.path.exists(path) else set()
    todo = [(out, m, True) for m in muts if m["id"] not in done]
    random.Random(3).shuffle(todo)
    import multiprocessing
    with multiprocessing.Pool(jobs) as pool, open(path, "a") as h:
        for v in pool.imap_unordered(one, todo):
            h.write(json.dumps(v) + "\n")
            h.flush()


def show(out):
    with open(os.path.join(out, "mutants.pkl"), "rb") as h:
        muts = {m["id"]: m for m in pickle.load(h)}
    vs = [json.loads(l) for l in open(os.path.join(out, "verdicts.jsonl"))]
    tot = {}
    for v in vs:
        k = v["verdict"].split()[0]
        tot[k] = tot.get(k, 0) + 1
    print(tot)
    for v in sorted(vs, key=lambda v: (muts[v["id"]]["file"], muts[v["id"]]["line"])):
        if v["verdict"].split()[0] not in ("TESTS", "KILLED"):
            m = muts[v["id"]]
            print(v["id"], f"{m['file']}:{m['line']}", m["what"], v["verdict"][:60])


if __name__ == "__main__":
    cmd, out = sys.argv[1], os.path.abspath(sys.argv[2])
    if cmd == "calls":
        record(out)
    elif cmd == "compare":
        compare(out)
    elif cmd == "make":
        make(out, sys.argv[3:])
    elif cmd == "run":
        run(out, int(sys.argv[4]) if len(sys.argv) > 4 else 8)
    elif cmd == "show":
        show(out)

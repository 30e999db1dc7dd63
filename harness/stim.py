"""The calls made for each property: STIM[property](gen, size) -> [(op, args)]."""
import json
import itertools
import re

from enc import B, I, INV, L, MISS, NULL, O, S
from gen import (BULKQ, BULKR, DATES, ENT, ERROR, GROUP, LIST, NAIVE, PATCH, SEARCH, USER, TEXTS, dt, flt)


# ------------------------------------------------------------------- C01
REF_TOKENS = ["a", "B1", "_", ".", ":", "-", "$ref", " ", "$", "urn"]


def c01(g, n):
    out = []
    k = 3 if n < 3000 else 4
    for m in range(k + 1):
        out += [("ref.parse", {"s": "".join(t)}) for t in itertools.product(REF_TOKENS, repeat=m)]
    for _ in range(n // 4):
        out.append(("ref.parse", {"s": "".join(g.pick(REF_TOKENS + ["a", ".", ":", "User", "2.0", "x_y"])
                                               for _ in range(g.r.randint(3, 9)))}))
    for d in list(g.names):
        s = g.names[d]
        for u, a, sub, _, _ in g.refs_of(s):
            for c in (0, 1):
                for sch in {u, ""}:
                    ext = u != s["urn"]
                    rf = {"schema": g.case(sch, c), "attr": g.case(a, c), "sub": g.case(sub, c) if sub else "",
                          "ext": ext and sch != ""}
                    out.append(("ref.lookup", {"schema": d, "ref": rf}))
                    if g.p(0.15):
                        out.append(("ref.show", {"ref": rf}))
            if g.p(0.2):
                out.append(("ref.lookup", {"schema": d, "ref": {"schema": g.pick(["urn:x", u + "x", ENT, s["urn"]]),
                                                                "attr": a, "sub": g.pick(["", "zip", sub]), "ext": False}}))
        out.append(("ref.lookup", {"schema": d, "ref": {"schema": "", "attr": "nope", "sub": "", "ext": False}}))
    parts = [{"schema": u, "attr": a, "sub": b, "ext": False}
             for u in ("", "urn:a", "URN:A", "urn:b") for a in ("x", "X", "y") for b in ("", "s", "S", "t")]
    for x, y in itertools.product(parts, parts):
        out.append(("ref.eq", {"x": x, "y": y}))
        if n >= 3000 or g.p(0.3):
            out.append(("ref.topeq", {"x": x, "y": y}))
    return out


# ------------------------------------------------------------------- C02
def c02_step(g):
    names = ["a", "A", "b", "B", "list", "List", "x"]
    subs = ["", "", "s", "S", "t"]
    do = g.pick(["set", "set", "set", "get", "get", "del", "eq"])
    text = g.p(0.5)
    ref = {"schema": g.pick(["", "", "", "urn:E:1", "URN:e:1", "urn:E:2"]), "attr": g.pick(names), "sub": g.pick(subs),
           "ext": False}
    if ref["schema"]:
        ref["ext"] = g.p(0.8)
    if text:
        ref["ext"] = False
    key = (ref["schema"] + ":" if ref["schema"] else "") + ref["attr"] + ("." + ref["sub"] if ref["sub"] else "")
    v = MISS
    if do == "set":
        # sub-attributes of "list" are assigned lists, those of other names single values
        if ref["schema"].lower() == "urn:e:2":
            ref["ext"] = False
        many = ref["attr"].lower() == "list"
        if ref["sub"]:
            v = g.pick([S("1"), S("2"), I(3), NULL, O([("s", S("1")), ("T", I(2))]), B(True)])
            if many:
                v = L([S(x) for x in "pqr"[:g.r.randint(0, 3)]])
                if g.p(0.3) and v["l"]:
                    v["l"][0] = MISS
        else:
            v = g.pick([S("1"), S("2"), I(3), NULL, L([S("p"), S("q")]), L([S("p")]), L([]),
                        L([O([("s", S("1"))]), O([("t", S("2"))])]), B(True)]
                       + ([] if many else [O([("s", S("1")), ("T", I(2))])]))
    elif do == "eq":
        v = g.junk_obj()
    return {"do": do, "text": text, "key": key, "ref": ref, "v": v}


def c02(g, n):
    def obj():
        return O([(k, v) for k, v in g.some([("a", S("1")), ("A", S("2")), ("b", O([("s", S("x")), ("S", S("y"))])),
                                             ("list", L([O([("s", I(1))]), O([("t", I(2)), ("T", I(3))])])),
                                             ("LIST", L([O([("s", I(1))]), S("p")])),
                                             ("urn:E:1", O([("a", S("e")), ("b", O([("s", S("1"))]))])), ("B", NULL),
                                             ("List", L([S("p")])), ("x", flt(1)), ("urn:E:2", S("scalar"))], 0, 5)])
    g.junk_obj = obj
    out = []
    for _ in range(n):
        steps = []
        for _ in range(g.r.randint(2, 9)):
            s = c02_step(g)
            if s["do"] == "eq":
                s["text"] = g.p(0.5)
            steps.append(s)
        out.append(("cont", {"init": obj(), "steps": steps}))
    return out


# ------------------------------------------------------------------- C03
DEEP = ["a", "b", "0", "1", "ab", "c"]


def c03_loc(g, base, deep):
    """a location, often related to one used before"""
    k = g.r.randrange(6)
    if base and k <= 3:
        l = g.pick(base)
        if k == 0:
            return l
        if k == 1:
            return l[:g.r.randint(0, len(l))]
        if k == 2:
            return (l + [g.pick(DEEP) for _ in range(g.r.randint(1, 3))])[:deep]
        return l[:-1] + [g.pick(DEEP)] if l else l
    return [g.pick(DEEP[:4]) for _ in range(g.pick([0, 1, 1, 2, 3, deep, g.r.randint(0, deep)]))]


def c03(g, n):
    out = []
    for _ in range(n):
        k = g.r.randint(2, 3)
        deep = g.pick([3, 3, 6])
        steps, used = [], []
        tight = [[g.pick(DEEP[:2]) for _ in range(g.pick([0, 1, 2]))] for _ in range(g.pick([1, 2]))] if g.p(0.4) else []
        for _ in range(g.r.randint(5, 16) if tight else g.r.randint(3, 12)):
            do = g.pick(["add"] * 4 + ["merge", "merge", "get", "pop", "proceed", "proceed", "has", "has", "new"])
            if tight:                   # much happening in few places
                do = g.pick(["add"] * 4 + ["merge"] * 3 + ["pop"] * 4 + ["proceed"] * 2 + ["get", "has"])
            reg, other = g.r.sample(range(1, k + 1), 2)
            loc = g.pick(tight) if tight else c03_loc(g, used, deep)
            if do == "merge" and tight and g.p(0.7):
                loc = []
            code = g.pick([1, 2, 15, 27][:2 if tight else 4])
            if do == "pop" and g.p(0.6):
                adds = [s for s in steps if s["do"] == "add"]
                if adds:
                    a = g.pick(adds)
                    loc, code, reg = a["loc"], a["code"], a["reg"]
                    other = g.pick([x for x in range(1, k + 1) if x != reg])
            used.append(loc)
            steps.append({"do": do, "reg": reg, "other": other, "loc": loc, "code": code, "stop": g.p(0.5),
                          "locs": [c03_loc(g, used, deep + 2) for _ in range(g.pick([1, 1, 2]))]})
        out.append(("issues", {"n": k, "steps": steps}))
    return out + [derived(g) for _ in range(n // 3)]


def derived(g):
    """one collection is drawn from another, then both go their own ways in the same few places"""
    steps = []

    def step(do, reg, other, loc, code=1, stop=True, locs=None):
        steps.append({"do": do, "reg": reg, "other": other, "loc": loc, "code": code, "stop": stop, "locs": locs or [loc]})
    pre = [g.pick(DEEP[:2]) for _ in range(g.r.randint(0, 2))]
    rels = [[g.pick(DEEP[:2]) for _ in range(g.r.randint(0, 2))] for _ in range(2)]
    for rel in rels + rels[:g.r.randint(0, 1)]:
        step("add", 1, 2, pre + rel, g.pick([1, 2]), g.p(0.7))
    if g.p(0.5):
        step("get", 1, 2, pre)
        at = {1: [pre + x for x in rels], 2: rels}
    else:
        to = pre if g.p(0.5) else []
        step("merge", 2, 1, to)
        at = {1: [pre + x for x in rels], 2: [to + pre + x for x in rels]}
    for _ in range(g.r.randint(2, 6)):
        reg = g.pick([1, 2])
        step(g.pick(["add", "pop", "pop"]), reg, 3, g.pick(at[reg]), g.pick([1, 2]), g.p(0.7))
    for reg in (1, 2):
        for code in (1, 2):
            step("proceed", reg, 3, [], locs=[g.pick(at[reg])])
            step("pop", reg, 3, g.pick(at[reg]), code)
        step("proceed", reg, 3, [], locs=[g.pick(at[reg])])
    return "issues", {"n": 3, "steps": steps}


# --------------------------------------------------------------- C04, C06
def c04(g, n):
    out = []
    targets = [(d, r) for d in g.res + ["X1", "Schema", "ResourceType", "Config", "Search", "Patch", "BulkReq", "BulkResp", "Error"]
               for r in g.refs_of(g.names[d])]
    for i in range(n):
        d, (u, a, sub, top, x) = targets[i % len(targets)] if i < len(targets) else g.pick(targets)
        s = g.names[d]
        df = x or top
        dr = g.pick(["parse", "dump"])
        v = g.value(df, dr) if g.p(0.4) else g.bad(df, dr)
        if df["post"] in ("path", "filter", "rep", "reps"):
            text = lambda t: S(g.pick(["userName", "a b", "x eq 1"])) if t["k"] == "str" else t  # noqa
            v = L([text(x) for x in v["l"]]) if v["k"] == "list" else text(v)
        out.append(("attr", {"schema": d, "dir": dr, "v": v,
                             "ref": {"schema": u, "attr": a, "sub": sub, "ext": u != s["urn"]}}))
    return out


def c06(g, n):
    out = []
    for _ in range(n):
        d = g.pick(g.res + ["User"] * 4 + ["Group"] * 2 + ["X1"])
        dr = g.pick(["parse", "dump"])
        out.append(("schema", {"schema": d, "dir": dr, "v": g.body(d, dr, density=g.pick([0.2, 0.5, 0.9]))}))
        if g.p(0.3) and d != "X1":
            out.append(("round", {"schema": d, "v": g.body(d, "parse", 0.9)}))
        if g.p(0.1):
            d = g.pick(["Schema", "ResourceType", "Config", "Error", "Error"])
            out.append(("schema", {"schema": d, "dir": dr, "v": message_body(g, d, dr)}))
    return out


def message_body(g, d, dr):
    s = g.names[d]
    out = [("schemas", L([S(s["urn"])]))]
    for a in s["attrs"]:
        if a["n"] in ("schemas", "meta") or not g.p(0.8):
            continue
        v = g.value(a, dr)
        if d == "Error" and a["n"] == "status":
            v = g.pick([S("404"), S("400"), S("300"), S("599"), S("299"), S("600"), S("0"), S("abc"), S(""), I(400)])
        out.append((a["n"], v))
    o = O(out)
    return o if g.p(0.4) else g.mutate(o, s, dr, g.pick([1, 2]))


# ------------------------------------------------------------------- C07
def c07(g, n):
    out = []
    many = [d for d in g.res if g.names[d]["exts"]] + ["Group"]
    for _ in range(n):
        d = g.pick(many)
        s = g.names[d]
        dr = g.pick(["parse", "dump"])
        o = g.resource(d, dr, 0.15)
        o = O([p for p in o["m"] if p[0] not in [e["urn"] for e in s["exts"]]])
        for e in s["exts"]:
            if g.p(0.6):
                a = g.pick(e["attrs"])
                v = g.pick([g.value(a, dr), g.value(a, dr), g.bad(a, dr), NULL])
                o = g.put(o, g.case(e["urn"], 0.3), O([(g.case(a["n"], 0.2), v)]))
        if g.p(0.15):
            o = g.mutate(o, s, dr, 1)
        o = g.put(o, g.case("schemas", 0.1), g.schemas_list(s))
        out.append(("schema", {"schema": d, "dir": dr, "v": o}))
    for d in ("List", "Patch", "BulkReq", "BulkResp", "Error", "Search"):
        for _ in range(n // 60 + 2):
            s = g.names[d]
            o = O([("schemas", g.schemas_list(s))])
            if d not in ("List", "Search"):
                out.append(("schema", {"schema": d, "dir": "dump" if d in ("BulkResp", "Error") else "parse", "v": o}))
    return out


# ------------------------------------------------------------------- C08
def c08(g, n):
    out = []
    for _ in range(n):
        d = g.pick(g.res + ["User"])
        s = g.names[d]
        o = g.resource(d, "parse", g.pick([0.3, 0.7]))
        for _ in range(g.pick([0, 1, 1, 2, 3])):
            urn, a = g.pick(g.all_attrs(s))
            k = g.r.randrange(5)
            blank = g.pick([NULL, S(""), L([]), MISS])
            if k <= 1:
                v = blank
            elif a["t"] == "complex":
                x = g.pick(a["subs"])
                it = g.put(g.item(a, "parse"), x["n"], blank)
                it = O([p for p in it["m"] if p[1]["k"] != "miss"])
                v = L([g.item(a, "parse"), it]) if a["mv"] else it
            else:
                v = g.value(a, "parse")
            if v["k"] == "miss":
                o = O([p for p in o["m"] if p[0] != a["n"]]) if urn is None else o
            elif not (a["t"] == "complex" and v["k"] == "str") and not (a["t"] == "complex" and a["mv"] != (v["k"] == "list") and v["k"] != "null"):
                o = g.put_attr(o, urn, a["n"], v)
        inc = g.pick(["none", "yes", "yes", "no", "no"])
        reps = []
        if inc != "none":
            for _ in range(g.pick([1, 1, 2, 3])):
                r = g.ref(s, 0.95)
                reps.append(r)
        ign = [g.ref(s, 1) for _ in range(g.pick([0, 0, 1, 2]))]
        out.append(("presence", {"schema": d, "dir": g.pick(["REQUEST", "RESPONSE", "RESPONSE"]), "v": o,
                                 "rule": {"reps": reps, "inc": inc, "ign": ign}}))
    return out


# ------------------------------------------------------------------- C09
LITS = ['"a"', "'a b'", "1", "-2", "1.5", "true", "false", "null", '""', '"and"', '" or "', '"a eq 1"', '"(x)"',
        '"[y]"', '"not (x"', '"a] or b pr"', "'say \"hi\"'", '"O\'N"', '"日本"', "3.0", "12e1", '"A pr"', "0"]
FATTR = ["a", "userName", "b.c", "urn:x:y:a", "urn:ietf:params:scim:schemas:core:2.0:User:userName", "emails.type",
         "orders", "android", "notes", "prx", "eqeq", "x1", "$ref", "members.$ref"]


def f_leaf(g, inside=False):
    n = g.pick([x for x in FATTR if not inside or ("." not in x and ":" not in x)])
    if g.p(0.25):
        return f"{n}{g.pick([' ', '  '])}{g.case('pr', 0.3)}"
    op = g.pick(["eq", "ne", "co", "sw", "ew", "gt", "ge", "lt", "le"])
    lit = g.pick(LITS)
    return f"{n} {g.case(op, 0.2)}{g.pick([' ', ' ', '  '])}{lit}"


def f_expr(g, depth, inside=False):
    if depth == 0 or g.p(0.3):
        return f_leaf(g, inside)
    k = g.r.randrange(9)
    if k <= 3:
        w = [g.pick(["and", "or", "AND", "oR"]) for _ in range(g.r.randint(1, 3))]
        out = f_expr(g, depth - 1, inside)
        for x in w:
            out += f" {x} " + f_expr(g, depth - 1, inside)
        return out
    if k == 4:
        return f"{g.case('not', 0.3)} ({f_expr(g, depth - 1, inside)})"
    if k == 5:
        return f"not({f_expr(g, depth - 1, inside)})" if g.p(0.5) else f"not {f_leaf(g, inside)}"
    if k == 6:
        return f"({f_expr(g, depth - 1, inside)})"
    if k == 7 and not inside:
        n = g.pick(["emails", "urn:x:y:a", "name", "a"])
        return f"{n}[{f_expr(g, depth - 1, True)}]"
    return f"( {f_expr(g, depth - 1, inside)} )"


def f_break(g, f):
    """damage a filter text"""
    toks = ["(", ")", "[", "]", " and ", " or ", " not ", " eq ", " pr", '"', "'", " ", "x", "]]", "()", "[]", " xx ", "1"]
    k = g.r.randrange(5)
    i = g.r.randrange(len(f) + 1)
    if k == 0:
        return f[:i] + g.pick(toks) + f[i:]
    if k == 1:
        j = min(len(f), i + g.r.randint(1, 6))
        return f[:i] + f[j:]
    if k == 2:
        w = f.split(" ")
        del w[g.r.randrange(len(w))]
        return " ".join(w)
    if k == 3:
        w = f.split(" ")
        w.insert(g.r.randrange(len(w) + 1), g.pick(["and", "or", "not", "pr", "eq", "(", ")", "a", '"x"']))
        return " ".join(w)
    w = f.split(" ")
    g.r.shuffle(w)
    return " ".join(w)


def quotes_ok(f):
    """quoted texts stand apart from other words and close; numbers are spelt as in JSON"""
    if re.search(r"\d\.(?!\d)|(?<![\w$])\.\d|(?<![\w$])-?0\d|\d_", f):
        return False
    i, prev_end = 0, -1
    while i < len(f):
        c = f[i]
        if c in "\"'":
            j = f.find(c, i + 1)
            if j < 0:
                return True          # unclosed: ill formed either way
            if i > 0 and f[i - 1] not in " (":
                return False
            if j + 1 < len(f) and f[j + 1] not in " )]":
                return False
            i = j + 1
        else:
            i += 1
    return True


def f_echo(g):
    """a filter saying alike things again and again: names ending alike, the same texts, groups and selections"""
    body = g.pick(["t pr", "t eq 1", "t pr or u pr", 'u eq "x"', "not (t pr)", '(t pr) and (t pr)'])
    text = g.pick(['"x"', '"x y"', '"and"', "'x'", '"|&PLACE_HOLDER_5&|"', '"(t pr)"', '"mails[t pr]"'])
    pieces = ["mails[" + body + "]", "emails[" + body + "]", "e_mails[" + body + "]", "x:y:mails[" + body + "]", "Mails[" + body + "]",
              "(" + body + ")", "((" + body + "))", "not (" + body + ")", "ails eq " + text, "mails eq " + text, "mails.t pr", "t pr", "u eq " + text]
    out = g.pick(pieces)
    some = [g.pick(pieces) for _ in range(g.pick([1, 2, 2, 3]))]
    for _ in range(g.r.randint(1, 4)):
        out += f" {g.pick(['and', 'or'])} {g.pick(some)}"
    return "(" + out + ")" if g.p(0.15) else out


def c09(g, n):
    out = [("filter.parse", {"s": f_echo(g)}) for _ in range(n // 3)]
    for _ in range(n):
        f = f_expr(g, g.pick([1, 2, 3, 4]))
        out.append(("filter.parse", {"s": f}))
        if g.p(0.6):
            for _ in range(20):
                b = f_break(g, f)
                if quotes_ok(b) and "\\" not in b:
                    out.append(("filter.parse", {"s": b}))
                    break
    words = ["a", "pr", "eq", "1", "and", "or", "not", "(", ")", '"x"']
    for k in (1, 2, 3, 4) if n < 3000 else (1, 2, 3, 4, 5):
        if k < 4:
            it = itertools.product(words, repeat=k)
        else:
            it = (tuple(g.pick(words) for _ in range(k)) for _ in range(n // 2))
        out += [("filter.parse", {"s": " ".join(t)}) for t in it if "not not" not in " ".join(t)]
    return out


# ------------------------------------------------------------------- C10
def match_schemas(g):
    return g.res + ["User"] * 3


def flaw(g, o, s, d="parse"):
    """some data removed or emptied"""
    for _ in range(g.pick([0, 0, 1, 2])):
        if not o["m"]:
            break
        k = g.pick(o["m"])[0]
        c = g.r.randrange(4)
        if c == 0:
            o = O([p for p in o["m"] if p[0] != k])
        elif c == 1:
            o = g.put(o, k, NULL)
        elif c == 2:
            o = O([[x, L([])] if x == k and v["k"] == "list" else [x, v] for x, v in o["m"]])
        else:
            o = O([[x, L([O(i["m"][1:]) if i["k"] == "obj" else i for i in v["l"]])] if x == k and v["k"] == "list"
                   else [x, O(v["m"][1:]) if x == k and v["k"] == "obj" else v] for x, v in o["m"]])
    return o


def dated(t):
    """date-time texts of date-time attributes as the parser yields them"""
    return t


def typed(g, name, o):
    """the resource with date-time texts turned into date-times"""
    s = g.names[name]

    def conv(a, v):
        if v["k"] == "list":
            return L([conv(a, x) for x in v["l"]])
        if a["t"] == "dateTime" and v["k"] == "str" and v["s"] in DATES + NAIVE:
            return dt(v["s"])
        if a["t"] == "complex" and v["k"] == "obj":
            return O([(k, conv(next((x for x in a["subs"] if x["n"] == k), a), y)) if any(x["n"] == k for x in a["subs"])
                      else (k, y) for k, y in v["m"]])
        return v
    exts = {e["urn"]: e for e in s["exts"]}
    out = []
    for k, v in o["m"]:
        if k in exts and v["k"] == "obj":
            out.append((k, O([(x, conv(next(a for a in exts[k]["attrs"] if a["n"] == x), y)) for x, y in v["m"]])))
        else:
            a = [a for a in s["attrs"] if a["n"] == k]
            out.append((k, conv(a[0], v) if a else v))
    return O(out)


def by_value(g, s, o):
    """a comparison of a multi-valued complex attribute by its items' value, of any type, with one that occurs"""
    have = [a for a in s["attrs"] if a["mv"] and a["t"] == "complex" and any(x["n"] == "value" and not x["mv"] for x in a["subs"])]
    odd = [a for a in have if any(x["n"] == "value" and x["t"] != "string" for x in a["subs"])]
    if not have:
        return None
    a = g.pick(odd or have)
    x = [x for x in a["subs"] if x["n"] == "value"][0]
    lit = g.literal(x)
    op = g.pick(["eq", "ne", "gt", "ge", "lt", "le"] if lit not in ("true", "false", "null") else ["eq", "ne"])
    if lit[0] == '"' and g.p(0.3):
        op = g.pick(["co", "sw", "ew"])
    vals = [json_value(g.literal(x)) for _ in range(g.pick([1, 2]))] + ([json_value(lit)] if g.p(0.6) else [])
    return f"{a['n']} {op} {lit}", O([p for p in o["m"] if p[0] != a["n"]] + [(a["n"], L([O([("value", v)]) for v in vals if v]))])


def json_value(lit):
    """a literal of a filter as data (None: not one whose comparison is settled)"""
    try:
        v = json.loads(lit)
    except ValueError:
        return None
    if isinstance(v, bool):
        return B(v)
    if isinstance(v, int):
        return I(v)
    if isinstance(v, float):
        return flt(*v.as_integer_ratio())
    return S(v) if isinstance(v, str) else None


def c10(g, n):
    out = []
    for _ in range(n):
        d = g.pick(match_schemas(g))
        s = g.names[d]
        o = flaw(g, g.resource(d, "parse", g.pick([0.4, 0.8]), True), s)
        if g.p(0.6):
            o = typed(g, d, o)
        if g.p(0.1):
            o = O([(g.case(k, 0.5), v) for k, v in o["m"]])
        f = g.filter_text(s, g.pick([0, 0, 1, 2, 3]))
        if g.p(0.06):
            f, o = by_value(g, s, o) or (f, o)
        out.append(("filter.match", {"schema": d, "strict": g.p(0.5), "v": o, "f": f}))
    return out


# ------------------------------------------------------------------- C11
def sort_ref(g, s):
    core = {a["n"].lower() for a in s["attrs"]}
    opts = [(u, a, sub) for u, a, sub, top, x in g.refs_of(s) if (u == s["urn"] or a.lower() not in core)
            and not (sub and top["mv"] and x["mv"])]
    if g.p(0.05):
        return {"schema": "", "attr": "nope", "sub": "", "ext": False}
    u, a, sub = g.pick(opts)
    core_ = u == s["urn"]
    return {"schema": "" if core_ and g.p(0.6) else u, "attr": g.case(a, 0.2), "sub": g.case(sub, 0.2) if sub else "",
            "ext": not core_}


def agree(g, names, ref):
    """do the schemas agree on whether the texts of the sorted attribute are case-exact (else there is no order)"""
    seen = set()
    for d in names:
        s = g.names[d]
        for a in s["attrs"] + [x for e in s["exts"] for x in e["attrs"]]:
            if a["n"].lower() == ref["attr"].lower():
                subs = [x for x in a["subs"] if x["n"].lower() == (ref["sub"] or "value").lower()]
                seen |= {x["ce"] for x in subs or [a] if x["t"] == "string"}
    return len(seen) < 2


def near_primary(g, o):
    """some items say something other than true or false about being primary"""
    def one(i):
        if i["k"] != "obj" or g.p(0.4):
            return i
        return O([[x, g.pick([S("true"), I(1), NULL, L([B(True)])]) if x == "primary" else v] for x, v in i["m"]])
    return O([[x, L([one(i) for i in v["l"]])] if v["k"] == "list" else [x, v] for x, v in o["m"]])


def c11(g, n):
    out = []
    for _ in range(n):
        names = [g.pick(match_schemas(g))]
        if g.p(0.2):
            names.append(g.pick(["User", "Group"]))
        ref = sort_ref(g, g.names[g.pick(names)])
        if not agree(g, names, ref):
            names = names[:1]
        k = g.pick([0, 1, 2, 3, 4, 5, 6])
        items, sch = [], []
        for _ in range(k):
            d = g.pick(names)
            o = flaw(g, g.resource(d, "parse", g.pick([0.3, 0.7]), True,
                                   keep=[a["n"] for a in g.names[d]["attrs"] if a["n"].lower() == ref["attr"].lower() and g.p(0.8)]),
                     g.names[d])
            o = typed(g, d, o) if g.p(0.7) else o
            if g.p(0.15):
                o = near_primary(g, o)
            items.append(o)
            sch.append(d)
        if g.p(0.3) and items:
            items.append(items[0])
            sch.append(sch[0])
        # values of one kind only
        out.append(("sort", {"ref": ref, "asc": g.p(0.5), "items": items, "schemas": sch, "single": g.p(0.5)}))
    return out


# ------------------------------------------------------------------- C12
def requested(g, s):
    """attributes / excludeAttributes parameters"""
    out = []
    k = g.r.randrange(8)
    names = lambda: [g.ref_text(s, 0.93) for _ in range(g.pick([1, 1, 2, 3]))]  # noqa
    form = lambda xs: L([S(x) for x in xs]) if g.p(0.4) else S(",".join(xs))  # noqa
    if k in (0, 1, 7):
        out.append(("attributes", form(names())))
    if k in (2, 3, 7):
        out.append(("excludeAttributes", form(names())))
    if k == 4:
        out.append((g.pick(["attributes", "excludeAttributes"]), g.pick([S(""), L([]), NULL, S(","), S("a,")])))
    return out


def qs(g, s):
    if g.p(0.2):
        return NULL
    return O(requested(g, s) + ([("other", S("x"))] if g.p(0.1) else []))


def headers(g, s=None):
    k = g.r.randrange(6)
    if k <= 1:
        return NULL
    if k == 2:
        return O([])
    if k == 3:
        return O([("X", S("y"))])
    return O([("Location", S(f"https://h/v2/{s['plural'] if s else 'Users'}/{g.pick('12')}"))])


def c12(g, n):
    out = []
    for _ in range(n):
        d = g.pick(g.res + ["User"] * 3)
        s = g.names[d]
        op = g.pick(["post.parse", "post.parse", "put.parse", "put.parse", "get.parse"])
        body = g.body(d, "parse", 0.5, g.pick([0.3, 0.7, 1])) if op != "get.parse" else g.pick([NULL, O([])])
        out.append((op, {"schema": d, "body": body, "qs": qs(g, s), "headers": headers(g, s)}))
    return out


# ------------------------------------------------------------------- C13
def path_text(g, s, bad=0.1):
    if g.p(bad):
        return g.pick(["", "a b", "emails[", "emails]", "emails[]", 'emails[type eq "a"', 'emails[type eq "a"]x',
                       'emails[type eq "a"] .value', "emails.", ".a", 'emails[type eq "a"].', "nope", "emails[type]",
                       'emails[type eq "a"][value eq "b"]', 'a[b eq "c"].d[e eq "f"]', 'emails[type eq "a"]]',
                       '[type eq "a"]', 'emails.type[value eq "a"]', 'emails[type eq "a"].value.x', "emails[type eq]",
                       'emails[type eq "a" and ]', 'emails [type eq "a"]', 'emails[type eq "a"] ', "a:b:c:"])
    if g.p(0.5):
        return g.ref_text(s, 0.95)
    cx = [(u, a) for u, a in g.all_attrs(s) if a["t"] == "complex" and (a["mv"] or g.p(0.1))]
    if not cx:
        return g.ref_text(s, 0.95)
    u, a = g.pick(cx)
    pre = (u + ":") if u else g.pick(["", "", s["urn"] + ":"])
    f = g.expr(lambda: g.sub_leaf(a), g.pick([0, 0, 1, 2]))
    sub = "" if g.p(0.4) else "." + g.case(g.pick([x["n"] for x in a["subs"]] + ["zip"] * g.p(0.1)), 0.2)
    return f"{pre}{g.case(a['n'], 0.2)}[{f}]{sub}"


PLITS = ['"a"', "'b'", '"x] y"', '"[z"', '"a].b"', "1", "true", '"].value"', '"a and b"', '""', '" "', "'\"'"]


def c13(g, n):
    out = []
    for _ in range(n):
        k = g.r.randrange(6)
        attr_ = g.pick(["emails", "a", "urn:x:1.0:y:emails", "members", "Emails", "x_1"])
        if k == 0:
            t = attr_ + g.pick(["", ".value", ".$ref", ".a.b", "."])
        elif k <= 3:
            leaf = lambda: f"{g.pick(['type', 'value', 'b', '$ref'])} {g.pick(['eq', 'co', 'NE', 'sw'])} {g.pick(PLITS[:5] + PLITS[7:])}"  # noqa
            t = f"{attr_}[{g.expr(leaf, g.pick([0, 0, 1, 2]))}]" + g.pick(["", "", ".value", ".Display", ".$ref", ".zip"])
        elif k == 4:
            t = path_text(g, g.names[g.pick(g.res)], 0.3)
        else:
            t = path_text(g, g.names["User"], 0)
            b = f_break(g, t)
            t = b if quotes_ok(b) and in_path_domain(b) else t
        if in_path_domain(t):
            out.append(("path.parse", {"s": t}))
    toks = ["a", ".", "[", "]", 'b eq "c"', "b pr", ":", " ", "x"]
    for k in (1, 2, 3):
        out += [("path.parse", {"s": "".join(t)}) for t in itertools.product(toks, repeat=k) if in_path_domain("".join(t))]
    for _ in range(n // 2):
        t = "".join(g.pick(toks) for _ in range(g.r.randint(4, 7)))
        if in_path_domain(t):
            out.append(("path.parse", {"s": t}))
    return out + path_pairs(g, n // 2)


def path_pairs(g, n):
    texts = [p + f + sub for p in ("emails", "Emails", "urn:x:y:emails", "URN:x:y:emails", "urn:x:z:emails", "roles")
             for f in ("", '[type eq "a"]', '[type eq "A"]', '[value eq "a"]', '[type ne "a"]', '[type eq "a" and value pr]')
             for sub in ("", ".value", ".Value", ".type")]
    pairs = list(itertools.product(texts, texts))
    return [("path.eq", {"x": x, "y": y}) for x, y in g.r.sample(pairs, min(n, len(pairs)))] + \
           [("path.eq", {"x": x, "y": x}) for x in texts]


def strip_quoted(t):
    out, i = "", 0
    while i < len(t):
        if t[i] in "\"'":
            j = t.find(t[i], i + 1)
            if j < 0:
                return out + t[i:]
            out += '"q"'
            i = j + 1
        else:
            out += t[i]
            i += 1
    return out


def in_path_domain(t):
    """leave out the texts whose reading the grammar leaves open"""
    if t != t.lstrip() or "\\" in t or "-" in t or not quotes_ok(t):
        return False
    b = strip_quoted(t)
    if "]" in b:
        tail = b[b.rindex("]") + 1:]
        if ":" in tail or tail.count(".") > 1:
            return False
    if "[" in b and "]" in b:
        inner = b[b.index("[") + 1:b.rindex("]")]
        if re.search(r"[\w$]\.[\w$]|:", inner):
            return False
    return True


# ------------------------------------------------------------------- C14
def partial(g, d):
    s = g.names[d]
    o = g.resource(d, "parse", 0.2)
    ro = [a["n"] for a in s["attrs"] if a["mut"] == "readOnly"]
    if g.p(0.85):
        o = O([p for p in o["m"] if p[0] not in ro])
        for e in s["exts"]:
            for k, v in o["m"]:
                if k == e["urn"]:
                    bad = [a["n"] for a in e["attrs"] if a["mut"] == "readOnly"]
                    v["m"] = [p for p in v["m"] if p[0] not in bad]
        if g.p(0.8):
            o = strip_ro(g, s, o)
    if g.p(0.3):
        o = g.mutate(o, s, "parse", 1)
    return o


def strip_ro(g, s, o):
    def clean(a, v):
        ro = [x["n"] for x in a["subs"] if x["mut"] == "readOnly"]
        if v["k"] == "obj":
            return O([p for p in v["m"] if p[0] not in ro])
        if v["k"] == "list":
            return L([clean(a, x) for x in v["l"]])
        return v
    out = []
    for k, v in o["m"]:
        a = [x for x in s["attrs"] if x["n"] == k]
        e = [x for x in s["exts"] if x["urn"] == k]
        if a and a[0]["subs"]:
            v = clean(a[0], v)
        elif e and v["k"] == "obj":
            v = O([(n, clean(next(x for x in e[0]["attrs"] if x["n"] == n), y)) for n, y in v["m"]])
        out.append((k, v))
    return O(out)


def target_of(g, s, path):
    """definition a generated path most likely names"""
    t = strip_quoted(path)
    if "[" in t:
        head, tail = t[:t.index("[")], t[t.rindex("]") + 1:].lstrip(".") if "]" in t else ""
    else:
        head, tail = t, ""
    last = head.split(":")[-1]
    if "." in last and not tail:
        last, tail = last.split(".", 1)
    for _, a in g.all_attrs(s):
        if a["n"].lower() == last.lower():
            if not tail:
                return a
            for x in a["subs"]:
                if x["n"].lower() == tail.lower():
                    return x
    return None


def patch_op(g, d):
    s = g.names[d]
    op = g.pick(["add"] * 3 + ["replace"] * 3 + ["remove"] * 2)
    out = [("op", S(g.case(op, 0.15)))]
    if g.p(0.03):
        out = [("op", g.pick([S("move"), NULL, I(1), S("")]))]
    if g.p(0.75 if op != "remove" else 0.95):
        for _ in range(30):
            path = path_text(g, s, 0.06)
            if in_path_domain(path):
                break
        else:
            path = "id"
        out.append(("path", S(path) if g.p(0.97) else g.junk()))
        a = target_of(g, s, path)
        if a is not None:
            v = g.value(a, "parse")
            if a["subs"] and g.p(0.7):
                ro = [x["n"] for x in a["subs"] if x["mut"] == "readOnly"]
                cl = lambda y: O([p for p in y["m"] if p[0] not in ro]) if y["k"] == "obj" else y  # noqa
                v = L([cl(y) for y in v["l"]]) if v["k"] == "list" else cl(v)
            if g.p(0.25):
                v = g.bad(a, "parse")
        else:
            v = g.junk()
    else:
        v = partial(g, d) if g.p(0.95) else g.junk()
    if g.p(0.95) if op != "remove" else g.p(0.2):
        out.append(("value", v))
    if g.p(0.05):
        out.append(("zz", S("a")))
    if g.p(0.05):
        out = [(g.case(k, 1), v) for k, v in out]
    return O(out)


def patch_body(g, d, p_bad=0.06):
    ops = [patch_op(g, d) for _ in range(g.pick([1, 1, 1, 2, 2, 3]))]
    out = [("schemas", L([S(PATCH)])), ("Operations", L(ops))]
    if g.p(p_bad):
        k = g.r.randrange(6)
        if k == 0:
            out[0] = ("schemas", g.schemas_list({"urn": PATCH, "exts": []}))
        elif k == 1:
            out[1] = ("Operations", g.junk())
        elif k == 2:
            out = out[:1]
        elif k == 3:
            out = out[1:]
        elif k == 4:
            out = [(g.case(k, 1), v) for k, v in out]
        else:
            ops.insert(g.r.randrange(len(ops) + 1), g.junk())
            out[1] = ("Operations", L(ops))
    if g.p(0.01):
        return g.junk()
    return O(out)


def c14(g, n):
    out = []
    for _ in range(n):
        d = g.pick(g.res + ["User"] * 3)
        out.append(("patch.parse", {"schema": d, "body": patch_body(g, d), "qs": qs(g, g.names[d]) if g.p(0.2) else NULL,
                                    "headers": NULL}))
    return out


# ------------------------------------------------------------------- C15
def checker(g, s, p=0.5):
    if not g.p(p):
        return NULL
    return {"k": "checker", "inc": g.pick(["yes", "no"]), "reps": [g.ref(s, 0.95) for _ in range(g.pick([0, 1, 1, 2, 3]))]}


def reps3(c):
    if c["k"] == "checker":
        c = dict(c, reps=[{k: r[k] for k in ("schema", "attr", "sub")} for r in c["reps"]])
    return c


def releasable(g, d, density=0.5, small=False):
    """a resource a response may carry: no never-returned attribute, full meta"""
    s = g.names[d]
    o = g.resource(d, "dump", density, small)

    def clean(a, v):
        nv = [x["n"] for x in a["subs"] if x["ret"] == "never"]
        if v["k"] == "obj":
            return O([p for p in v["m"] if p[0] not in nv])
        if v["k"] == "list":
            return L([clean(a, x) for x in v["l"]])
        return v
    out = []
    for k, v in o["m"]:
        a = [x for x in s["attrs"] if x["n"] == k]
        e = [x for x in s["exts"] if x["urn"] == k]
        if a:
            if a[0]["ret"] == "never":
                continue
            v = clean(a[0], v)
        elif e:
            v = O([(n, clean(x, y)) for n, y in v["m"] for x in e[0]["attrs"] if x["n"] == n and x["ret"] != "never"])
        out.append((k, v))
    return O(out)


def error_body(g, status):
    out = [("schemas", L([S(ERROR)])), ("status", S(str(status)))]
    if g.p(0.6):
        out.append(("scimType", S(g.pick(["invalidFilter", "tooMany", "uniqueness", "mutability", "invalidSyntax", "invalidPath",
                                          "noTarget", "invalidValue", "invalidVers", "sensitive", "INVALIDVALUE"]))))
    if g.p(0.5):
        out.append(("detail", S("x")))
    o = O(out)
    if g.p(0.4):
        k = g.r.randrange(6)
        if k == 0:
            o = g.put(o, "status", g.pick([S("abc"), I(status), S(str(status + 1)), NULL, S("")]))
        elif k == 1:
            o = g.put(o, "scimType", g.pick([S("nope"), I(1), NULL, S("")]))
        elif k == 2:
            o = g.put(o, "schemas", g.schemas_list({"urn": ERROR, "exts": []}))
        elif k == 3:
            o = O(o["m"][1:] if g.p(0.5) else o["m"][:1])
        elif k == 4:
            o = O(o["m"] + [("zz", I(1))])
        else:
            o = g.junk()
    return o


def c15(g, n):
    out = []
    for _ in range(n):
        k = g.pick(["get.dump", "put.dump", "post.dump", "patch.dump"] * 3 + ["error.dump"] * 2 + ["delete.dump"])
        d = g.pick(g.res + ["User"] * 3)
        s = g.names[d]
        if k == "delete.dump":
            out.append((k, {"status": g.pick([204, 204, 200, 404, 0]), "headers": headers(g, s)}))
            continue
        if k == "error.dump":
            st = g.pick([400, 404, 500, 300, 599, 307, 299, 600, 200, 409])
            out.append((k, {"status": st, "body": error_body(g, st), "headers": headers(g, s)}))
            continue
        want = {"get.dump": 200, "put.dump": 200, "post.dump": 201, "patch.dump": 200}[k]
        st = want if g.p(0.85) else g.pick([200, 201, 204, 400])
        body = releasable(g, d, g.pick([0.3, 0.8]))
        h = headers(g, s)
        if g.p(0.6) and h["k"] == "obj":
            loc = [v for x, v in h["m"] if x == "Location"]
            m = [v for x, v in body["m"] if x == "meta"]
            if loc and m and g.p(0.8):
                body = g.put(body, "meta", g.put(m[0], "location", near_url(g, loc[0]["s"]) if g.p(0.25) and loc[0]["k"] == "str" else loc[0]))
        if g.p(0.45):
            body = g.mutate(body, s, "dump", g.pick([1, 1, 2]))
        if g.p(0.03):
            body = g.pick([NULL, O([]), L([]), S("")])
        if k == "patch.dump" and g.p(0.25):
            st, body = 204, g.pick([NULL, body])
        out.append((k, {"schema": d, "status": st, "body": body, "headers": h, "c": reps3(checker(g, s, 0.35))}))
    return out


# ------------------------------------------------------------------- C16
def list_event(g, p_bad=0.5):
    kind = g.pick(["list", "list", "root", "search", "root", "search"])
    pool = g.pick([["User"], ["User", "Group"], ["Group", "User"], [g.pick(g.res)],
                   list(dict.fromkeys(["User", g.pick(g.res), g.pick(g.res)]))])
    names = pool[:1] if kind == "list" else pool
    n = g.pick([0, 1, 2, 2, 3, 4])
    items, sch = [], []
    s = g.names[names[0]]
    f = S(g.filter_text(s, g.pick([0, 0, 1, 2]))) if g.p(0.35) else NULL
    so = {"k": "sorter", "rep": sort_ref(g, s), "asc": g.p(0.5)} if g.p(0.35) else NULL
    if so["k"] == "sorter" and not agree(g, names, so["rep"]):
        so = NULL
    queried = f["k"] != "null" or so["k"] != "null"
    for _ in range(n):
        d = g.pick(names)
        o = releasable(g, d, g.pick([0.2, 0.5]), queried) if g.p(0.7) else g.resource(d, "dump", 0.3, True)
        if g.p(0.12 if p_bad else 0):
            o = g.mutate(o, g.names[d], "dump", 1)
        items.append(o)
        sch.append(d)
    if items and g.p(0.1):
        items.append(items[-1])
    if p_bad and items and g.p(0.05):
        items[g.r.randrange(len(items))] = g.junk()
    n = len(items)
    total = n
    count, start = -1, 1
    page = []
    if g.p(0.35):
        count = g.pick([n, n + 1, max(n - 1, 0), 0, 1, n, -3])
        if g.p(0.6):
            total = n + g.pick([0, 1, 5])
        page = [("startIndex", I(g.pick([1, 1, 1, 2, 0]))), ("itemsPerPage", I(n if g.p(0.8) else n + 1))]
        page = page if g.p(0.8) else g.some(page)
    if g.p(0.15):
        start = g.pick([1, 2, 3, 0, -1])
        page = page or [("startIndex", I(g.pick([1, 2, 3])))]
    if g.p(0.06):
        total = g.pick([n + 1, max(n - 1, 0)])
    out = [("schemas", L([S(LIST)])), ("totalResults", I(total))] + page
    if n or g.p(0.5):
        out.append(("Resources", L(items)))
    body = O(out)
    if p_bad and g.p(0.08):
        body = g.pick([
            lambda: g.put(body, "totalResults", g.junk()), lambda: g.put(body, "itemsPerPage", g.junk()),
            lambda: g.put(body, "startIndex", g.junk()), lambda: g.put(body, "Resources", g.junk()),
            lambda: g.put(body, "schemas", g.schemas_list({"urn": LIST, "exts": []})), lambda: g.junk(),
            lambda: O(body["m"][1:]), lambda: O([(g.case(k, 1), v) for k, v in body["m"]])])()
    return ("list.dump", {"kind": kind, "schemas": names, "status": 200 if g.p(0.96) else g.pick([201, 404]), "body": body,
                          "headers": NULL if g.p(0.8) else O([("X", S("y"))]), "start": start, "count": count, "f": f, "s": so,
                          "c": reps3(checker(g, s, 0.25))})


def doc_attr(g, depth=1):
    out = [("name", S(g.pick(["a", "b", "c"]))), ("type", S(g.pick(["string", "integer", "boolean", "complex", "dateTime", "reference",
                                                                 "decimal", "binary"]))),
           ("multiValued", B(g.p(0.5))), ("required", B(g.p(0.5)))]
    if g.p(0.5):
        out += [("description", S("d")), ("caseExact", B(g.p(0.5))), ("mutability", S(g.pick(["readOnly", "readWrite", "immutable"]))),
                ("returned", S(g.pick(["always", "default", "never"]))), ("uniqueness", S(g.pick(["none", "server"])))]
    if g.p(0.3):
        out.append(("referenceTypes", L([S("User")])))
    if depth and out[1][1]["s"] == "complex" and g.p(0.8):
        out.append(("subAttributes", L([doc_attr(g, 0) for _ in range(g.pick([0, 1, 2]))])))
    o = O(out)
    if g.p(0.15):
        k = g.pick([p[0] for p in out])
        o = g.put(o, k, g.pick([g.junk(), NULL, S("zz")])) if g.p(0.6) else O([p for p in out if p[0] != k])
    return o


def discovery_event(g):
    kind = g.pick(["schemas", "types"])
    d = {"schemas": "Schema", "types": "ResourceType"}[kind]
    s = g.names[d]
    items = []
    for _ in range(g.pick([0, 1, 1, 2, 3])):
        o = [("schemas", L([S(s["urn"])]))]
        if g.p(0.8):
            o.append(("id", S(g.pick(["urn:a", "urn:b", "User"]))))
        if d == "Schema":
            o += [("name", S("N")), ("attributes", L([doc_attr(g) for _ in range(g.pick([0, 1, 2]))]))]
        else:
            o += [("name", S("N")), ("endpoint", S("/Users")), ("schema", S(USER))]
            if g.p(0.5):
                o.append(("schemaExtensions", L([O([("schema", S(ENT)), ("required", B(True))])])))
        if g.p(0.6):
            o.append(("meta", O([("resourceType", S(d if g.p(0.9) else "User")), ("location", S("https://h/v2/x"))])))
        o = O(o)
        if g.p(0.15):
            o = g.mutate(o, s, "dump", 1)
        items.append(o)
    n = len(items)
    body = O([("schemas", L([S(LIST)])), ("totalResults", I(n if g.p(0.9) else n + 1)), ("Resources", L(items))])
    so = {"k": "sorter", "rep": {"schema": "", "attr": g.pick(["id", "name"]), "sub": "", "ext": False}, "asc": g.p(0.5)}
    f = S(g.pick(['id eq "urn:a"', "name pr", 'meta.resourceType eq "Schema"']))
    return ("list.dump", {"kind": kind, "schemas": [d], "status": 200 if g.p(0.95) else 204, "body": body, "headers": NULL, "start": 1,
                          "count": -1, "f": f if g.p(0.15) else NULL, "s": so if g.p(0.15) else NULL, "c": NULL})


def c16(g, n):
    return [list_event(g) if g.p(0.9) else discovery_event(g) for _ in range(n)]


# ------------------------------------------------------------------- C17
def query(g, s, style="qs"):
    """query parameters as [(name, value)]"""
    out = []
    if g.p(0.5):
        f = g.filter_text(s, g.pick([0, 1, 2]))
        if g.p(0.15):
            for _ in range(10):
                b = f_break(g, f)
                if quotes_ok(b):
                    f = b
                    break
        out.append(("filter", S(f)))
    if g.p(0.5):
        out.append(("sortBy", S(g.ref_text(s, 0.9))))
    if g.p(0.5):
        out.append(("sortOrder", S(g.pick(["ascending", "descending", "ASCENDING", "Descending", "up"]))))
    if g.p(0.5):
        out.append(("count", g.pick([I(0), I(5), I(-1)] + ([S("3"), S("-2"), S("0"), S("x"), S("")] if style == "qs" else []))))
    if g.p(0.5):
        out.append(("startIndex", g.pick([I(1), I(7), I(0)] + ([S("2"), S("0"), S("1.5"), S("y")] if style == "qs" else []))))
    g.r.shuffle(out)
    return out


def c17(g, n):
    out = []
    for _ in range(n):
        d = g.pick(["User", "Group"] + g.res)
        s = g.names[d]
        k = g.r.randrange(10)
        if k <= 3:
            q = O(query(g, s) + requested(g, s) + ([("zz", S("1"))] if g.p(0.1) else []))
            if g.p(0.03):
                q = g.pick([NULL, O([]), S("x"), L([])])
            op = g.pick(["list.parse", "root.parse"])
            a = {"body": NULL, "qs": q, "headers": headers(g, s)}
            a.update({"schema": d} if op == "list.parse" else {"schemas": ["User", "Group"]})
            out.append((op, a))
        elif k == 4:
            q = g.pick([NULL, O([]), O([("filter", S("a pr"))]), O([("count", S("1"))]), O(query(g, s))])
            out.append(("disc.parse", {"kind": g.pick(["schemas", "types"]), "body": g.pick([NULL, O([])]), "qs": q,
                                       "headers": headers(g, s)}))
        elif k <= 7:
            b = query(g, s, "body")
            for n_, v in requested(g, s):
                b.append((n_, L([S(x) for x in v["s"].split(",")]) if v["k"] == "str" else v))
            if g.p(0.15):
                b.append((g.pick(["count", "startIndex", "filter", "sortBy", "sortOrder", "attributes", "excludeAttributes", "zz"]),
                          g.junk()))
                b = list(dict(b).items())
            if g.p(0.1):
                b = [(g.case(x, 1), v) for x, v in b]
            b.insert(0, ("schemas", L([S(SEARCH)]) if g.p(0.9) else g.schemas_list({"urn": SEARCH, "exts": []})))
            out.append(("search.parse", {"schemas": ["User", "Group"], "body": O(b) if g.p(0.98) else g.junk(), "qs": NULL,
                                         "headers": headers(g, s)}))
        else:
            out.append(pair_event(g, s, d))
    return out


def pair_event(g, s, d):
    """the same query in both forms"""
    q = [(k, S(g.case(g.pick(["ascending", "descending"]), 0.3)) if k == "sortOrder" else v) for k, v in query(g, s, "body")]
    rq = [(k, v) for k, v in requested(g, s)]
    lists = [(k, L([S(x) for x in v["s"].split(",")]) if v["k"] == "str" and v["s"] else v) for k, v in rq]
    lists = [(k, v) for k, v in lists if v["k"] == "list"]
    body = O([("schemas", L([S(SEARCH)]))] + q + lists)
    return ("query.pair", {"schema": d, "schemas": ["User", "Group"], "qs": O(q + lists), "body": body})


# ------------------------------------------------------------------- C18
def bulk_op(g, names):
    d = g.pick(names)
    s = g.names[d]
    m = g.pick(["POST", "POST", "PUT", "PATCH", "DELETE", "GET"])
    path = f"/{s['plural']}" if m == "POST" else f"/{s['plural']}/{g.pick(['1', 'abc', 'bulkId:q'])}"
    out = [("method", S(g.case(m, 0.1))), ("path", S(path))]
    if m == "POST" or g.p(0.2):
        out.append(("bulkId", S("q")))
    if g.p(0.2):
        out.append(("version", S("v1")))
    data = MISS
    if m in ("POST", "PUT"):
        data = g.body(d, "parse", 0.75)
    elif m == "PATCH":
        data = patch_body(g, d)
    elif g.p(0.3):
        data = g.junk_or_obj()
    if data["k"] not in ("miss",):
        out.append(("data", data if data["k"] == "obj" or g.p(0.5) else O([])))
    if g.p(0.2):
        k = g.r.randrange(7)
        if k == 0:
            out = [p for p in out if p[0] != g.pick(["method", "path", "bulkId", "data"])]
        elif k == 1:
            out = [("path", S(g.pick(["/Nope", "/Nope/1", "Users", "/Users", "/Users/", "/Users/1", "/", "", "/Users/1/2",
                                      "//", "/Groups"]))) if p[0] == "path" else p for p in out]
        elif k == 2:
            out = [("method", g.pick([S("HEAD"), I(1), NULL, S("")])) if p[0] == "method" else p for p in out]
        elif k == 3:
            out = [(p[0], NULL) if g.p(0.4) else p for p in out]
        elif k == 4:
            out = [(g.case(x, 1), v) for x, v in out]
        elif k == 5:
            x = g.pick([p[0] for p in out])
            out = [(p[0], g.junk()) if p[0] == x else p for p in out]
        else:
            out.append(("zz", I(1)))
    return O(out)


def bulk_event(g):
    g.junk_or_obj = lambda: g.pick([g.junk(), O([("a", I(1))])])
    names = g.pick([["User"], ["User", "Group"], ["User", "Group", g.pick(g.res)], [g.pick(g.res)]])
    names = list(dict.fromkeys(names))
    n = g.pick([0, 1, 1, 2, 3, 4])
    out = [("schemas", L([S(BULKQ)])), ("Operations", L([bulk_op(g, names) for _ in range(n)]))]
    if g.p(0.3):
        out.append(("failOnErrors", I(g.pick([0, 1, 5]))))
    if g.p(0.1):
        k = g.r.randrange(5)
        if k == 0:
            out[0] = ("schemas", g.schemas_list({"urn": BULKQ, "exts": []}))
        elif k == 1:
            out[1] = ("Operations", g.junk())
        elif k == 2:
            out = out[1:]
        elif k == 3:
            out = [(g.case(x, 1), v) for x, v in out]
        else:
            out.append(("failOnErrors", g.junk()))
            out = list(dict(out).items())
    return ("bulk.parse", {"schemas": names, "max": g.pick([-1, 0, 1, 2, 3, 10, 10]), "body": O(out), "qs": NULL,
                           "headers": NULL})


def c18(g, n):
    return [bulk_event(g) for _ in range(n)]


# ------------------------------------------------------------------- C19
def near_url(g, u):
    """a location close to another"""
    return S(g.pick([u + "/", u[:-1], u.swapcase(), u.replace("https", "http"), u + "?x=1", u + "#", u.replace("//h", "//H"), u + "0", ""]))


def bulk_result(g, names):
    d = g.pick(names)
    s = g.names[d]
    m = g.pick(["POST", "POST", "PUT", "PATCH", "DELETE", "GET"])
    good = g.p(0.65)
    want = {"POST": 201, "DELETE": 204, "PATCH": g.pick([200, 204])}.get(m, 200)
    st = want if good else g.pick([400, 404, 409, 500, 307, 300, 412])
    loc = f"https://h/v2/{s['plural']}/{g.pick('12')}"
    if g.p(0.15):
        loc = g.pick(["https://h/{0}/1/", "https://h/{0}/1/x", "https://h/{0}/1?a=/b/", "https://h/x/{0}/1", "https://h/{1}/1/{0}/2",
                      "https://h/a{0}/1", "https://h/{0}s/1"]).format(s["plural"], g.names[g.pick(names)]["plural"])
    out = [("method", S(g.case(m, 0.1))), ("status", S(str(st)))]
    if m == "POST" or g.p(0.1):
        out.append(("bulkId", S("q")))
    if good or m != "POST" or g.p(0.3):
        out.append(("location", S(loc)))
    ver = g.pick([None, "v1", 'W/"1"'])
    if ver:
        out.append(("version", S(ver)))
    if not good:
        out.append(("response", error_body(g, st)))
    elif m != "DELETE" and g.p(0.7):
        body = releasable(g, d, 0.3)
        meta = [v for k, v in body["m"] if k == "meta"]
        mt = meta[0] if meta and meta[0]["k"] == "obj" else O([])
        if g.p(0.85):
            mt = g.put(mt, "location", near_url(g, loc) if g.p(0.1) else S(loc))
        if ver and g.p(0.8):
            mt = g.put(mt, "version", S(ver if g.p(0.85) else g.pick([ver + " ", ver.swapcase(), "", ver[:-1]])))
        body = g.put(body, "meta", mt)
        if g.p(0.25):
            body = g.mutate(body, s, "dump", 1)
        out.append(("response", body))
    if g.p(0.15):
        k = g.r.randrange(6)
        if k == 0:
            x = g.pick(["method", "status", "bulkId", "location", "response"])
            out = [p for p in out if p[0] != x]
        elif k == 1:
            out = [("location", S(g.pick(["https://h/Nope/1", "", "Users/1", "/Users/", "https://h/Users"]))) if p[0] == "location" else p
                   for p in out]
        elif k == 2:
            out = [("status", g.pick([S("abc"), I(200), NULL, S("201"), S("204"), S("200")])) if p[0] == "status" else p for p in out]
        elif k == 3:
            out = [(p[0], NULL) if g.p(0.4) else p for p in out]
        elif k == 4:
            x = g.pick([p[0] for p in out])
            out = [(p[0], g.junk()) if p[0] == x else p for p in out]
        else:
            out = [(g.case(x, 1), v) for x, v in out]
    return O(out)


def bulk_resp_event(g):
    names = g.pick([["User"], ["User", "Group"], ["User", "Group", g.pick(g.res)], [g.pick(g.res)]])
    names = list(dict.fromkeys(names))
    n = g.pick([0, 1, 1, 2, 3, 4])
    out = [("schemas", L([S(BULKR)])), ("Operations", L([bulk_result(g, names) for _ in range(n)]))]
    if g.p(0.08):
        k = g.r.randrange(4)
        if k == 0:
            out[0] = ("schemas", g.schemas_list({"urn": BULKR, "exts": []}))
        elif k == 1:
            out[1] = ("Operations", g.junk())
        elif k == 2:
            out = out[1:]
        else:
            out = [(g.case(x, 1), v) for x, v in out]
    return ("bulk.dump", {"schemas": names, "max": g.pick([-1, -1, 0, 1, 2]), "status": 200 if g.p(0.95) else g.pick([201, 400]),
                          "body": O(out), "headers": NULL if g.p(0.8) else O([("X", S("y"))])})


def c19(g, n):
    return [bulk_resp_event(g) for _ in range(n)]


# ------------------------------------------------------------------- C22
def c22(g, n):
    out = [("schema.def", {"schema": d}) for d in g.names]
    out += [("schema.doc", {"schema": d}) for d in g.names
            if d in ("User", "Group", "Schema", "ResourceType", "Config") or d not in g.b]
    out += [("ext.doc", {"schema": d, "e": i + 1}) for d in g.names for i in range(len(g.names[d]["exts"]))]
    out += [("ready.error", {"name": x}) for x in ("INVALID_FILTER", "TOO_MANY", "UNIQUENESS", "MUTABILITY", "INVALID_SYNTAX", "INVALID_PATH",
                                                   "NO_TARGET", "INVALID_VALUE", "INVALID_VERS", "SENSITIVE")]
    return out


# ------------------------------------------------------------------- C23
def c23(g, n):
    own = [d for d in g.res if d not in g.b]
    pool = [e for d in own for e in g.names[d]["exts"]]
    out = []
    for _ in range(n):
        bases = [g.pick(own) for _ in range(g.pick([1, 2, 2, 3]))]
        if len(bases) > 1 and g.p(0.4):
            bases[1] = bases[0]
        exts = [dict(g.pick(pool)) for _ in range(g.pick([1, 2, 3, 4]))]
        for e in exts:
            if g.p(0.4):
                e["urn"] = g.case(e["urn"], 0.7)
            elif g.p(0.15):
                e["urn"] = g.case(g.names[g.pick(bases)]["urn"], 0.5)
            elif g.p(0.3):
                e["urn"] = g.pick(exts)["urn"]
        steps = [{"s": g.r.randint(1, len(bases)), "e": g.r.randint(1, len(exts)), "req": g.p(0.3)} for _ in range(g.pick([1, 2, 3, 4, 5, 6]))]
        b = g.pick(bases)
        full = {**g.names[b], "exts": [e for i, e in enumerate(exts) if e["urn"].lower() not in
                                       [x["urn"].lower() for x in exts[:i]] + [g.names[b]["urn"].lower()]]}
        g.names["_"] = full
        probe = g.resource("_", "parse", 0.4)
        if g.p(0.3):
            probe = g.mutate(probe, full, "parse", 1)
        del g.names["_"]
        everything = {**full, "exts": exts}
        refs, names = [], []
        for _ in range(6):
            u, a, sub, _, _ = g.pick(g.refs_of(everything))
            sch = g.pick([u, u, "", "urn:x"])
            refs.append({"schema": g.case(sch, 0.3), "attr": g.case(a, 0.3), "sub": g.case(sub, 0.3) if sub else "", "ext": sch != "" and u != full["urn"]})
            if "$" not in a + sub and "__" not in a + sub:
                names.append([g.case(a, 0.3), g.case(sub, 0.3) if sub else ""])
        out.append(("compose", {"bases": bases, "exts": exts, "steps": steps, "refs": refs, "names": names, "probe": probe}))
    return out


# ------------------------------------------------------------------- C05
WILD_TEXT = ["", " ", "\u0000", "\ud800", "\u00df", "\u0130", "\U0001f600", "a" * 300, "[", "]", "(", ")", "\"", "'", "\\", "\\\"", "a[b",
             "%s", "{0}", "{", "$ref", "urn:", ":", ".", "..", ",", "null", "true", "1e999", "-", "0x1", "\u0661", "\n", "\t a",
             "and", "not", "a eq", "emails[", "emails[]", "emails[type]", "2024-13-01", "http://[", "http://[::1", "//", "/", "bulkId:",
             "9" * 30, "9" * 5000, "1_0", "\u00b2", "schemas", "meta", "Operations", "__class__", "get", "_x", "|&PLACE_HOLDER_0&|"]


def wild(g, depth=2):
    k = g.r.randrange(12)
    if k == 0:
        return NULL
    if k == 1:
        return B(g.p(0.5))
    if k == 2:
        return g.pick([I(0), I(-1), I(1), I(2147483647), {"k": "big", "s": "9" * 40}, {"k": "big", "s": "1" + "0" * 400},
                       {"k": "big", "s": "-99999999999"}])
    if k == 3:
        return g.pick([{"k": "nan"}, {"k": "inf", "s": "inf"}, {"k": "inf", "s": "-inf"}, flt(1, 2), {"k": "fx", "s": "1e300"},
                       {"k": "fx", "s": "-0.0"}, flt(5, 1)])
    if k <= 6:
        return S(g.pick(WILD_TEXT + TEXTS))
    if k <= 8 and depth:
        return L([wild(g, depth - 1) for _ in range(g.r.randrange(4))])
    if k <= 10 and depth:
        return O(dict([(g.pick(WILD_TEXT[:-10] + ["value", "type", "primary", "a", "A", "schemas", "op", "path", "Operations", "meta",
                                                  "resourceType", "location"]), wild(g, depth - 1))
                       for _ in range(g.r.randrange(4))]))
    return g.pick([O([]), L([]), S(""), NULL, L([NULL]), L([L([])]), O([("", NULL)])])


def places(t, at=()):
    """every position in a value"""
    yield at
    if t["k"] == "list":
        for i, x in enumerate(t["l"]):
            yield from places(x, at + (i,))
    elif t["k"] == "obj":
        for i, p in enumerate(t["m"]):
            yield from places(p[1], at + (i,))


def edit(t, at, f):
    if not at:
        return f(t)
    if t["k"] == "list":
        return L([edit(x, at[1:], f) if i == at[0] else x for i, x in enumerate(t["l"])])
    return O([(p[0], edit(p[1], at[1:], f) if i == at[0] else p[1]) for i, p in enumerate(t["m"])])


def damage(g, t):
    """replace, drop, duplicate, rename or wrap something anywhere in a value"""
    at = g.pick(list(places(t)))

    def f(x):
        k = g.r.randrange(8)
        if k <= 3:
            return wild(g)
        if k == 4:
            return L([x, x])
        if k == 5:
            return O([("value", x)]) if g.p(0.5) else L([x])
        if x["k"] == "obj" and x["m"]:
            i = g.r.randrange(len(x["m"]))
            key, v = x["m"][i]
            if k == 6:
                return O(dict([tuple(q) for q in x["m"]] + [(key.swapcase(), wild(g))]))
            return O([q for j, q in enumerate(x["m"]) if j != i])
        if x["k"] == "list" and x["l"]:
            i = g.r.randrange(len(x["l"]))
            return L(x["l"][:i] + [wild(g)] + x["l"][i + (k == 6):])
        if x["k"] == "str":
            return S(g.pick([x["s"].upper(), x["s"] + g.pick(WILD_TEXT), g.pick(WILD_TEXT) + x["s"], x["s"][:-1]]))
        return wild(g, 1)
    return edit(t, at, f)


def wild_query(g):
    out = []
    for n in g.some(["filter", "sortBy", "sortOrder", "attributes", "excludeAttributes", "count", "startIndex", "zz"], 0, 5):
        text = lambda: g.pick([g.pick(WILD_TEXT), g.filter_text(g.names["User"], 1), g.ref_text(g.names["User"]), "5"])  # noqa
        out.append((n, S(text()) if g.p(0.7) else L([S(text()) for _ in range(g.r.randrange(3))])))
    return O(out)


def any_message(g):
    """one call of a message validator"""
    return g.pick([c12, c14, c15, c16, c17, c18, c19, c12, c14])(g, 1)[0]


EVIL = {
    "external": ["http://[::1/x", "http://[", "http://]", "http://[x]", "http://a:b", "http://a:99999999", "http://\u2100.com", "//[", "http://[v1.x]/",
                 "http://\uff03", "a://b@c:d@e"],
    "uri": ["http://[::1/x", "urn:[", "\ud800"], "scim": ["http://[::1/x", "Users/[", "\ud800"],
    "dateTime": ["2024-01-02T03:04:05+99:99", "2024-01-02T03:04:05.Z", "99999-01-02T03:04:05Z", "2024-W01-1", "\u0662024-01-02T03:04:05Z",
                 "2024-01-02T03:04:05+00:00:00.1", "2024-01-02", "T", "-", "2024-01-02T03:04:05\u0000", "0001-01-01T00:00:00+14:00",
                 "9999-12-31T23:59:59-14:00", "20240102T030405Z"],
    "binary": ["\u00e9", "a", "====", "\ud800", "YQ=", "Y" * 5, "aGk=\u0000", "a\n=="],
    "string": ["\ud800", "\u0130", "", "bulkId"],
}
EVIL_ANY = [NULL, B(True), I(0), I(-1), flt(1, 2), flt(-3, 1), {"k": "nan"}, {"k": "inf", "s": "-inf"}, {"k": "big", "s": "1" + "0" * 400},
            S(""), S("x"), S("9" * 5000), L([]), L([NULL]), L([L([])]), L([O([])]), O([]), O([("value", NULL)]), O([("", NULL)]),
            O([("value", L([O([("value", I(1))])]))]), L([S("x"), NULL, O([("primary", S("x"))])])]


def evil_values(a):
    one = EVIL_ANY + [S(t) for t in EVIL.get(a["t"], [])]
    if a["t"] == "complex":
        one = one + [O([(s["n"], v)]) for s in a["subs"] for v in evil_values(s)]
    out = list(one)
    if a["mv"]:
        out += [L([v]) for v in one] + [L([v, O([("primary", B(True))])]) for v in one[:6]]
    return out


def c05_attrs(g, share):
    """every attribute definition with every nasty value, alone and inside its resource, in a request, a response and a patch"""
    out = []
    for d in g.res + ["Schema", "ResourceType", "Config", "Error", "BulkReq", "BulkResp", "Patch", "Search"]:
        s = g.names[d]
        for urn, a in g.all_attrs(s):
            for v in evil_values(a):
                if not g.p(share):
                    continue
                dr = g.pick(["parse", "dump"])
                ref = {"schema": urn or s["urn"], "attr": a["n"], "sub": "", "ext": urn is not None}
                k = g.r.randrange(4)
                if k <= 1 or d not in g.res:
                    out.append(("attr", {"schema": d, "dir": dr, "v": v, "ref": ref}))
                    continue
                if k == 2:
                    base = O([("schemas", L([S(s["urn"])]))]) if g.p(0.7) else g.resource(d, dr, 0.3)
                    body = g.put_attr(base, urn, a["n"], v)
                    out.append((dr == "parse" and g.pick(["post.parse", "put.parse"]) or g.pick(["get.dump", "put.dump", "post.dump"]),
                                {"schema": d, "body": body, "qs": NULL, "headers": NULL, "status": g.pick([200, 201]), "c": NULL}))
                    if g.p(0.3):
                        o = g.pick([0, 1, 2])
                        res = [O([("schemas", L([S(s["urn"])]))])] * o + [body]
                        key = g.pick([a["n"]] + [a["n"] + "." + x["n"] for x in a["subs"]])
                        ref1 = key if urn is None else urn + ":" + key
                        out.append(("list.dump", {"kind": g.pick(["list", "root"]), "schemas": [d], "status": 200, "start": 1, "count": -1, "headers": NULL,
                                                  "body": O([("schemas", L([S(LIST)])), ("totalResults", I(o + 1)), ("Resources", L(res))]),
                                                  "f": S(g.pick([ref1 + " pr", ref1 + ' eq "a"', ref1 + " gt 1", f"not ({ref1} eq true)",
                                                                 ref1 + ' co "a"', ref1 + ' le "2024-01-02T03:04:05Z"'])) if g.p(0.6) else NULL,
                                                  "s": {"k": "sorter", "asc": g.p(0.5), "rep": {"schema": urn or "", "attr": a["n"],
                                                        "sub": key.split(".")[1] if "." in key else "", "ext": urn is not None}} if g.p(0.6) else NULL,
                                                  "c": NULL}))
                else:
                    t = (urn + ":" if urn else "") + a["n"]
                    path = g.pick([[], [("path", S(t))], [("path", S(t))], [("path", S(t + '[value eq "a"].' + g.pick(["value", "type", "zz"])))]])
                    val = v if path else g.put_attr(O([]), urn, a["n"], v)
                    op = O([("op", S(g.pick(["add", "replace", "add", "remove"])))] + path + [("value", val)])
                    out.append(("patch.parse", {"schema": d, "body": O([("schemas", L([S(PATCH)])), ("Operations", L([op]))]), "qs": NULL,
                                                "headers": NULL}))
    return [("nothing", {"op": op, "a": a}) for op, a in out]


def c05(g, n):
    out = c05_attrs(g, 0.5 if n < 50000 else 1)
    for _ in range(n):
        k = g.r.randrange(20)
        if k == 0:
            t = "".join(g.pick(WILD_TEXT + FATTR + [" ", " eq ", " pr", " and ", "a"]) for _ in range(g.r.randint(1, 6)))
            out.append(("nothing", {"op": g.pick(["ref.parse", "filter.parse", "path.parse"]), "a": {"s": t}}))
            continue
        if k == 1:
            f = f_expr(g, g.pick([1, 2, 3]))
            for _ in range(g.pick([1, 2, 4])):
                f = f_break(g, f)
            out.append(("nothing", {"op": g.pick(["filter.parse", "path.parse"]), "a": {"s": f}}))
            continue
        while True:
            op, a = any_message(g)
            if op != "query.pair":
                break
        a = dict(a)
        if "body" in a and g.p(0.9):
            for _ in range(g.pick([1, 1, 2, 3])):
                a["body"] = damage(g, a["body"])
        if "qs" in a and g.p(0.4):
            a["qs"] = wild_query(g) if g.p(0.9) else g.pick([wild(g), NULL])
        if "headers" in a and g.p(0.2):
            a["headers"] = wild(g)
        if "status" in a and g.p(0.05):
            a["status"] = g.pick([0, -1, 999, 204])
        out.append(("nothing", {"op": op, "a": a}))
    return out


# ------------------------------------------------------------------- C20
def any_call(g):
    k = g.r.randrange(12)
    if k == 0:
        return c10(g, 1)[0]
    if k == 1:
        return c11(g, 1)[0]
    if k <= 3:
        return c06(g, 1)[0]
    if k == 4:
        return c08(g, 1)[0]
    return any_message(g)


def c20(g, n):
    out = []
    pool = [any_call(g) for _ in range(max(6, n // 3))]
    for _ in range(n):
        calls = []
        for _ in range(g.r.randint(2, 5)):
            op, a = g.pick(pool) if g.p(0.3) else any_call(g)
            if op in ("query.pair", "round"):
                continue
            calls.append({"op": op, "a": a})
        if calls:
            out.append(("seq", {"calls": calls}))
    return out + focused(g, n // 2)


def focused(g, n):
    """histories of calls of one kind on the same few schemas, most on the very same validator"""
    out, every = [], g.res
    while len(out) < n:
        g.res = g.r.sample(every, 3)
        try:
            got = [x for x in g.pick([c12, c14, c15, c16, c16, c17, c18, c19])(g, 40) if x[0] not in ("query.pair", "round")]
        finally:
            g.res = every
        groups = {}
        for op, a in got:
            groups.setdefault(json.dumps([op, a.get("kind"), a.get("schema"), a.get("schemas")]), []).append((op, a))
        for same in sorted(groups.values(), key=len, reverse=True)[:4]:
            out.append(("seq", {"calls": [{"op": op, "a": a} for op, a in same[:6]]}))
        g.r.shuffle(got)
        out.append(("seq", {"calls": [{"op": op, "a": a} for op, a in got[:5]]}))
    return out[:n]


# ------------------------------------------------------------------- C21
def c21(g, n):
    out = []
    while len(out) < n:
        op, a = any_message(g)
        if op != "query.pair":
            out.append(("rel", {"op": op, "a": a}))
    return out


# -------------------------------------------------------------- C24, C25
def c24(g, n):
    """definitions of the schemas at hand, compared with changed copies"""
    pool = [x for d in g.names for _, x in g.all_attrs(g.names[d]) if x["t"] != "unknown"]
    pool = [{**x, "post": "", "desc": x.get("desc", ""),
             "subs": [{**y, "post": ""} for y in x["subs"]]} for x in pool]
    kinds = ["ref", "path", "filter", "attr", "object", "dict", "text", "number", "null", "list"]
    out = [("kinds.eq", {"x": x, "y": y}) for x in kinds for y in kinds]
    for _ in range(n):
        x = g.pick(pool)
        y = dict(x) if g.p(0.7) else g.pick(pool)
        for _ in range(g.pick([0, 1, 1, 2])):
            k = g.pick(["mv", "req", "mut", "ret", "uniq", "n", "iss"] + (["ce", "canon", "vc"] if x["t"] != "complex" else []))
            if k in ("mv", "req", "ce", "vc"):
                y[k] = not y[k] if y["t"] != "complex" or k in ("mv", "req") else y[k]
            elif k == "n":
                y["n"] = g.case(y["n"], 0.8) if "$" not in y["n"] else y["n"]
            elif k == "canon" and y["t"] == "string":
                y.update(hc=True, canon=[g.case(c, 0.5) for c in y["canon"]] or ["a"])
            elif k != "canon":
                y[k] = g.pick({"mut": ["readWrite", "readOnly", "immutable"], "ret": ["default", "always", "never"],
                               "uniq": ["none", "server", "global"], "iss": ["none", "server"]}[k])
        if x["t"] == "complex" and y["t"] == "complex":
            y["subs"] = x["subs"]
        out.append(("attr.eq", {"x": x, "y": y}))
    for _ in range(n // 2):
        t = "".join(g.pick(REF_TOKENS + ["User", "x_y"]) for _ in range(g.r.randint(0, 5)))
        if t.isascii():
            out.append(("cont.key", {"key": t, "do": g.pick(["get", "set", "del"]), "init": O([("b", O([("c", I(1))]))])}))
    return out


def c25(g, n):
    out = [x for x in c04(g, n // 2)] + [("schema", {"schema": d, "dir": dr, "v": g.body(d, dr, 0.2)})
                                          for d in g.res for dr in ("parse", "dump") for _ in range(max(1, n // 200))]
    while len(out) < 2 * n:
        op, a = any_message(g)
        if op != "query.pair":
            out.append((op, a))
    out += [x for x in c09(g, n // 3) + c13(g, n // 3) if x[0] in ("filter.parse", "path.parse")]
    return [("details", {"op": op, "a": a}) for op, a in out]


# ------------------------------------------------------------------- C26
def ref_words(r):
    return (r["schema"] + ":" if r["schema"] else "") + r["attr"] + ("." + r["sub"] if r["sub"] else "")


def asking(g, a, form):
    """the request that asks for what a response is checked against"""
    out = []
    if a.get("f", NULL)["k"] == "str":
        out.append(("filter", a["f"]))
    if a.get("s", NULL)["k"] == "sorter":
        out.append(("sortBy", S(ref_words(a["s"]["rep"]))))
        if not a["s"]["asc"] or g.p(0.5):
            out.append(("sortOrder", S(g.case("ascending" if a["s"]["asc"] else "descending", 0.3))))
    elif g.p(0.05):
        out.append(("sortOrder", S("descending")))
    if a.get("count", -1) != -1:
        out.append(("count", I(a["count"]) if form == "body" or g.p(0.3) else S(str(a["count"]))))
    if a.get("start", 1) != 1 or ("start" in a and g.p(0.1)):
        out.append(("startIndex", I(a["start"]) if form == "body" or g.p(0.3) else S(str(a["start"]))))
    c = a.get("c", NULL)
    if c["k"] == "checker" and c["reps"]:
        names = [ref_words(r) for r in c["reps"]]
        out.append(("attributes" if c["inc"] == "yes" else "excludeAttributes",
                    L([S(x) for x in names]) if form == "body" or g.p(0.2) else S(",".join(names))))
    g.r.shuffle(out)
    if form == "body":
        return {"body": O([("schemas", L([S(SEARCH)]))] + out), "qs": NULL}
    return {"body": NULL, "qs": O(out)}


def serving(g, op, a):
    """a response call as the second half of an exchange, or None"""
    if op == "list.dump":
        kind = a["kind"]
        if kind not in ("list", "root", "search"):
            return None
        rq = asking(g, a, "body" if kind == "search" else "qs")
    elif op == "bulk.dump":
        kind = "bulk"
        more = [] if a["max"] == -1 else [("failOnErrors", I(a["max"]))]
        rq = {"body": O([("schemas", L([S(BULKQ)]))] + more + [("Operations", L([O([("method", S("DELETE")), ("path", S(
            "/" + g.names[a["schemas"][0]]["plural"] + "/1"))])]))]), "qs": NULL}
    elif op in ("get.dump", "put.dump", "post.dump", "patch.dump"):
        kind = op.split(".")[0]
        rq = asking(g, a, "qs")
        d = a["schema"]
        if kind == "patch":
            rq["body"] = O([("schemas", L([S(PATCH)])), ("Operations", L([O([("op", S("replace")), ("path", S("externalId")),
                                                                         ("value", S("e"))])]))]) if g.p(0.8) else patch_body(g, d, 0)
        elif kind != "get":
            rq["body"] = g.body(d, "parse", 0.95, 1)
        if not rq["qs"]["m"] and g.p(0.5):
            rq["qs"] = NULL
    else:
        return None
    return ("serve", {"kind": kind, "schemas": a.get("schemas") or [a["schema"]], "req": rq, "raw": g.p(0.3), "status": a["status"], "body": a["body"],
                      "headers": a["headers"]})


def answering(g, kind=None):
    """an honest server's answer"""
    kind = kind or g.pick(["list", "root", "search"])
    names = g.pick([["User"], ["Group"], [g.pick(g.res)], ["User", "Group"], ["User", g.pick(g.res)]])
    names = list(dict.fromkeys(names))[:1 if kind == "list" else 2]
    s = g.names[names[0]]
    of = [g.pick(names) for _ in range(g.pick([0, 1, 2, 3, 4, 5]))]
    items = [releasable(g, d, g.pick([0.2, 0.5, 0.8]), True) for d in of]
    a = {"f": NULL, "s": NULL, "c": NULL, "count": -1, "start": 1}
    if g.p(0.5):
        a["f"] = S(g.filter_text(s, g.pick([0, 0, 1, 2])))
    if g.p(0.6):
        for _ in range(5):
            r = sort_ref(g, s)
            if agree(g, names, r) and (len(names) == 1 or r["attr"].lower() in ("id", "externalid", "meta")):
                a["s"] = {"k": "sorter", "rep": r, "asc": g.p(0.5)}
                break
    if g.p(0.3):
        a["c"] = reps3({"k": "checker", "inc": g.pick(["yes", "no"]), "reps": [g.ref(s, 0.95) for _ in range(g.pick([1, 2, 4]))]})
    if g.p(0.4):
        a["count"] = g.pick([0, 1, 2, 3, 10, -2])
    if g.p(0.3):
        a["start"] = g.pick([0, 1, 2, 3, 9, -3])
    return ("answer", {"raw": g.p(0.3), "kind": kind, "schemas": names, "req": asking(g, a, "body" if kind == "search" else "qs"), "items": items, "of": of})


def c26(g, n):
    out = []
    while len(out) < n:
        k = g.r.randrange(10)
        if k < 3:
            x = serving(g, *list_event(g, 0.2))
        elif k < 6:
            x = serving(g, *c15(g, 1)[0])
        elif k < 7:
            x = serving(g, *bulk_resp_event(g))
        else:
            x = answering(g)
        if x:
            out.append(x)
    return out


STIM = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
        "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21,
        "C22": c22, "C23": c23, "C24": c24, "C25": c25, "C26": c26}

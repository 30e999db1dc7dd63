"""Stimuli: calls to make on the implementation.  They are drawn from the
schema descriptions of the specification, never from the implementation.
Everything is determined by the seed."""
import copy
import itertools
import random

from enc import B, I, INV, L, MISS, NULL, O, S

USER = "urn:ietf:params:scim:schemas:core:2.0:User"
ENT = "urn:ietf:params:scim:schemas:extension:enterprise:2.0:User"
GROUP = "urn:ietf:params:scim:schemas:core:2.0:Group"
LIST = "urn:ietf:params:scim:api:messages:2.0:ListResponse"
PATCH = "urn:ietf:params:scim:api:messages:2.0:PatchOp"
BULKQ = "urn:ietf:params:scim:api:messages:2.0:BulkRequest"
BULKR = "urn:ietf:params:scim:api:messages:2.0:BulkResponse"
ERROR = "urn:ietf:params:scim:api:messages:2.0:Error"
SEARCH = "urn:ietf:params:scim:api:messages:2.0:SearchRequest"

TEXTS = ["a", "A", "b", "Ab", "ab", "abc", "work", "Home", "x y", "日本", "O'Neil", 'say "hi"', "true",
         "1", "null", "2024-01-02T03:04:05Z", "aGk=", "http://x.y/z", "/Users/1", "bulkId", "en-US", "Z"]
DATES = ["2024-01-02T03:04:05Z", "2024-01-02T04:04:05+01:00", "2023-12-31T23:59:59.123Z",
         "2024-02-29T00:00:00+00:00", "2024-01-02T03:04:05.000001Z", "1999-06-15T12:00:00-05:30"]
NAIVE = ["2024-01-02T03:04:05", "2023-12-31T23:59:59.5".replace(".5", ".500"), "2024-02-29T00:00:00"]
BAD_DATES = ["2023-02-29T00:00:00Z", "2024-13-01T00:00:00Z", "2024-01-02T24:00:00Z", "", "x",
             "2024-01-02T03:04:60Z", " 2024-01-02T03:04:05Z", "2024-01-02T03:04:05Z ", "2024-01-02T03:04:05Z\n", "\t2024-01-02T03:04:05+01:00", "0000-01-01T00:00:00Z", "2024-01-32T00:00:00Z", "2024-01-02T03:04:05+24:00"]
B64 = ["", "aGk=", "YQ==", "YWJj", "YWJjZA=="]
BAD64 = ["a", "aG", "aGk", "aGk==", "YR==", "aGl=", "=", "====", "aGk=aGk=", "a b=", "YWJj\n"]
URLS = ["http://x.y", "https://example.com/a?b#c", "ftp://h", "a+b://h/", "HTTP://X"]
BAD_URLS = ["", "x", "http:", "http:/x", "http://", "//x", "1a://x", "://x", "http:///x", "a/b://c"]
PLURALS = ["Thing", "Things", "User", "SubThings", "things"]     # one within another
CORE_NAMES = ["userName", "alpha", "Beta", "count", "flag", "tags", "addr", "when", "blob", "site", "ratio",
              "kind", "rank", "members", "notes", "$ref"]
SUB_NAMES = ["value", "type", "primary", "display", "Code", "level", "since", "$ref"]
EXT_NAMES = ["gamma", "delta", "manager", "dept", "alpha", "cost"]


def dt(text):
    """the value a date-time text stands for (normal form)"""
    from datetime import datetime
    return {"k": "dt", "s": datetime.fromisoformat(text).isoformat()}


def flt(n, d=1):
    return {"k": "flt", "n": n, "d": d}


def attr(n, t="string", **f):
    d = {"n": n, "t": t, "mv": False, "req": False, "ce": False, "hc": False, "canon": [], "vc": False,
         "mut": "readWrite", "ret": "default", "uniq": "none", "iss": "none", "post": "",
         "refs": [t] if t in ("external", "uri") else ["User"] if t == "scim" else [], "subs": [],
         "desc": f"about {n}"}
    d.update(f)
    return d


class Gen:
    def __init__(self, seed, builtin, small=(), n_synth=10):
        self.r = random.Random(seed)
        self.b = builtin
        self.synth = [{"id": f"S{i}", "s": self.new_schema(i)} for i in range(n_synth)]
        self.names = {**builtin, **{d["id"]: d["s"] for d in self.synth + list(small)}}
        self.res = ["User", "Group"] + [d["id"] for d in self.synth + list(small) if d["id"] != "X1"]

    # ------------------------------------------------------------ basics
    def p(self, x):
        return self.r.random() < x

    def pick(self, xs):
        return self.r.choice(list(xs))

    def some(self, xs, lo=0, hi=None):
        xs = list(xs)
        n = self.r.randint(min(lo, len(xs)), min(len(xs), hi if hi is not None else len(xs)))
        return self.r.sample(xs, n)

    def case(self, s, p=0.3):
        if not self.p(p):
            return s
        if "$ref" in s:
            return "$ref".join(self.case(x, 1) for x in s.split("$ref"))
        return self.pick([s.lower(), s.upper(), s.swapcase(), "".join(self.pick([c.upper(), c.lower()]) for c in s)])

    # ----------------------------------------------------------- schemas
    def new_attr(self, n, sub=False):
        r = self.r
        ts = ["string"] * 5 + ["integer", "decimal", "boolean", "binary", "external", "uri", "scim", "dateTime"]
        t = self.pick(ts) if sub else self.pick(ts + ["complex"] * 6)
        if n == "primary":
            t = "boolean"
        if n == "$ref" and t == "complex":
            t = "scim"
        a = attr(n, t)
        a["mv"] = self.p(0.15 if sub else 0.4) and n not in ("primary", "value")
        a["req"] = self.p(0.3)
        a["mut"] = self.pick(["readWrite"] * 5 + ["readOnly", "readOnly", "writeOnly", "immutable"])
        a["ret"] = self.pick(["default"] * 4 + ["always", "never", "request"])
        a["uniq"] = self.pick(["none", "none", "server", "global"])
        a["iss"] = self.pick(["none", "none", "server", "client"])
        if t == "string":
            a["ce"] = self.p(0.4)
            if self.p(0.35):
                a["hc"] = True
                a["canon"] = self.some(["work", "Home", "other", "A", "b"], 1, 4)
                a["vc"] = self.p(0.6)
        if t == "complex":
            a["subs"] = [self.new_attr(s, True) for s in self.some(SUB_NAMES, 1, 5)]
        return a

    def common(self):
        """schemas, id, externalId and meta; the last three sometimes declared otherwise than usual"""
        core = copy.deepcopy(self.b["User"]["attrs"][:4])
        if self.p(0.25):
            core[1].update(post="", req=self.p(0.5), ce=self.p(0.5), mut=self.pick(["readWrite", "readOnly", "immutable"]),
                           ret=self.pick(["always", "default", "never"]), iss=self.pick(["none", "server", "client"]))
        if self.p(0.25):
            core[2].update(req=self.p(0.6), ce=self.p(0.5), mut=self.pick(["readWrite", "readOnly", "immutable"]),
                           ret=self.pick(["always", "default", "request"]), iss=self.pick(["none", "server", "client"]))
        if self.p(0.25):
            core[3].update(req=self.p(0.5), mut=self.pick(["readWrite", "readOnly"]), ret=self.pick(["always", "default"]),
                           subs=[x for x in core[3]["subs"] if x["n"] in ("resourceType", "location", "version") or self.p(0.5)])
        return core

    def new_schema(self, i):
        core = self.common()
        names = self.some(CORE_NAMES, 3, 8)
        s = {"urn": f"urn:verif:schemas:{i}:Thing{i}", "name": f"Thing{i}", "plural": PLURALS[i] if i < len(PLURALS) else f"Things{i}", "res": True,
             "attrs": core + [self.new_attr(n) for n in names], "exts": []}
        for e in range(self.pick([0, 1, 1, 2])):
            s["exts"].append({"urn": f"urn:verif:ext:{i}:E{e}",
                              "attrs": [self.new_attr(n) for n in self.some(EXT_NAMES, 1, 4)]})
        return s

    # ------------------------------------------------------------ values
    def text(self):
        return self.pick(TEXTS)

    def junk(self, depth=2):
        k = self.r.randrange(12 if depth else 9)
        if k == 0:
            return NULL
        if k == 1:
            return B(self.p(0.5))
        if k == 2:
            return I(self.pick([0, 1, -1, 2, 7, 2147483647]))
        if k == 3:
            return self.pick([flt(1, 2), flt(3, 1), flt(-7, 4), {"k": "fx", "s": "0.1"}, flt(0, 1)])
        if k == 4:
            return self.pick([{"k": "big", "s": "99999999999"}, {"k": "bigf", "s": "100000000000000000000"}])
        if k in (5, 6, 7):
            return S(self.pick([t for t in TEXTS if t.isascii()] + ["", "x"]))
        if k in (8, 9):
            return L([self.junk(depth - 1) for _ in range(self.r.randrange(3))]) if depth else S("")
        return O([(self.pick(["value", "a", "type", "primary", "X"]) + str(j), self.junk(depth - 1))
                  for j in range(self.r.randrange(3))])

    def value1(self, a, d, small=False):
        """a conforming single value"""
        t = a["t"]
        if a["post"] in ("path", "filter", "rep", "reps"):
            return S(self.pick(["userName", "a b", "x eq 1"]))
        if t == "string":
            if a["hc"] and (a["vc"] or self.p(0.5)) and a["canon"]:
                v = self.pick(a["canon"])
                return S(v if a["ce"] else self.case(v))
            if a["hc"] and self.p(0.3):
                return S(self.near(a))
            return S(self.pick(["a", "A", "b", "Ab", "abc"]) if small else self.text())
        if t in ("uri", "scim"):
            return S(self.pick(["a", "/Users/1", "http://x.y", "Users", "https://h/Groups/7"]))
        if t == "integer":
            return self.pick([I(0), I(1), I(2), I(-3)] + ([] if small else [flt(2, 1), flt(-3, 1), flt(0, 1), flt(-7, 1), {"k": "big", "s": "5000000000"}, {"k": "bigf", "s": "-100000000000000000000"},
                                                                            I(2147483647)]))
        if t == "decimal":
            return self.pick([flt(1, 2), flt(5, 4), I(1), I(0), flt(-1, 2)]
                             + ([] if small else [{"k": "fx", "s": "0.1"}, {"k": "big", "s": "5000000000"}]))
        if t == "boolean":
            return B(self.p(0.5))
        if t == "binary":
            return S(self.pick(B64))
        if t == "external":
            return S(self.pick(URLS))
        if t == "dateTime":
            v = self.pick(DATES if small or self.p(0.8) else NAIVE)
            return S(v) if d == "parse" else dt(v)
        if t == "unknown":
            return self.junk(1)
        if t == "complex":
            return self.item(a, d, small)
        raise KeyError(t)

    def item(self, a, d, small=False):
        out = []
        for s in a["subs"]:
            if self.p(0.9 if s["req"] else 0.6):
                out.append((s["n"], self.value(s, d, small)))
        return O(out)

    def value(self, a, d, small=False):
        if a["mv"]:
            n = self.pick([1, 1, 2, 2, 3, 3, 4, 0])
            items = [self.value1(a, d, small) for _ in range(n)]
            if a["t"] == "complex":
                seen = False
                for x in items:
                    for pr in x["m"]:
                        if pr[0] == "primary" and pr[1] == B(True):
                            if seen:
                                pr[1] = B(False)
                            seen = True
            return L(items)
        return self.value1(a, d, small)

    def near(self, a):
        """a text close to one of the canonical values"""
        c = self.pick(a["canon"] + ["work"])
        return self.pick([c + " ", " " + c, c[:-1], c[1:], c + c, c + ",", c.upper(), c.lower(), c.swapcase(), c + "\t", "zz", "", '"' + c + '"'])

    def bad1(self, a, d):
        t = a["t"]
        pools = {"binary": BAD64, "external": BAD_URLS, "dateTime": BAD_DATES}
        if t in pools and self.p(0.7):
            if t == "dateTime" and d == "dump":
                return self.pick([S(self.pick(DATES)), I(5)])
            return S(self.pick(pools[t]))
        if a["hc"] and self.p(0.6):
            return S(self.near(a))
        if t == "boolean":
            return self.pick([S("true"), I(1), I(0), NULL])
        if t in ("integer", "decimal"):
            return self.pick([S("1"), B(True), flt(1, 2), {"k": "inf", "s": "inf"}, {"k": "nan"},
                              {"k": "big", "s": "1" + "0" * 309}, {"k": "big", "s": str(2 ** 1000)}, NULL])
        return self.junk()

    def bad(self, a, d):
        """a value that may well not conform"""
        k = self.r.randrange(6)
        if k == 0:
            return self.junk()
        if k == 1:
            return NULL
        if k == 2:                                   # wrong plurality
            return self.value1(a, d) if a["mv"] else L([self.value1(a, d)])
        if a["mv"]:
            items = [self.value1(a, d) for _ in range(self.r.randint(1, 4))]
            if a["t"] == "complex" and self.p(0.3):    # any pattern of primary items
                return L([self.put(x, self.case("primary", 0.1), B(self.p(0.5))) if self.p(0.8) else x for x in items])
            i = self.r.randrange(len(items))
            items[i] = self.mutated_item(a, items[i], d)
            if self.p(0.3) and a["t"] == "complex":
                items = [self.put(x, "primary", B(True)) for x in items]
            return L(items)
        return self.mutated_item(a, self.value1(a, d), d)

    def put(self, o, k, v):
        if o["k"] != "obj":
            return o
        return O([(x, y) for x, y in o["m"] if x.lower() != k.lower()] + [(k, v)])

    def mutated_item(self, a, v, d):
        if a["t"] != "complex" or v["k"] != "obj" or self.p(0.15):
            return self.bad1(a, d)
        k = self.r.randrange(6)
        s = self.pick(a["subs"])
        if k <= 2:
            return self.put(v, self.case(s["n"]), self.bad(s, d))
        if k == 3:
            return O([(x, y) for x, y in v["m"] if x.lower() != s["n"].lower()])
        if k == 4:
            return O(v["m"] + [("extra", self.junk()), ("zz", NULL)])
        return O([(self.case(x, 1), y) for x, y in v["m"]])

    # --------------------------------------------------------- resources
    def urns(self, s, o):
        keys = {x.lower() for x, _ in o["m"]}
        return [s["urn"]] + [e["urn"] for e in s["exts"] if e["urn"].lower() in keys or self.p(0.1)]

    def resource(self, name, d, density=0.5, small=False, keep=()):
        """a conforming resource (object value)"""
        s = self.names[name]
        out = []
        for a in s["attrs"]:
            if a["n"] == "schemas":
                continue
            if a["n"] == "meta":
                if self.p(0.6):
                    out.append(("meta", self.meta(s, d)))
                continue
            if a["n"] in keep or self.p(0.97 if a["req"] else density):
                v = self.value(a, d, small)
                if a["n"] == "id":
                    v = S(self.pick(["1", "2", "abc"]))
                out.append((a["n"], v))
        for e in s["exts"]:
            ex = [(a["n"], self.value(a, d, small)) for a in e["attrs"]
                  if self.p(0.97 if a["req"] else density)]
            if ex and self.p(0.8):
                out.append((e["urn"], O(ex)))
        o = O(out)
        o["m"].insert(0, ["schemas", L([S(u) for u in self.urns(s, o)])])
        return o

    def meta(self, s, d):
        out = []
        if self.p(0.8):
            out.append(("resourceType", S(s["name"])))
        for n in ("created", "lastModified"):
            if self.p(0.4):
                v = self.pick(DATES)
                out.append((n, S(v) if d == "parse" else dt(v)))
        if self.p(0.5):
            out.append(("location", S(f"https://h/v2/{s['plural']}/{self.pick('12')}")))
        if self.p(0.4):
            out.append(("version", S(self.pick(["W/\"1\"", "v1"]))))
        return O(out)

    def all_attrs(self, s):
        return [(None, a) for a in s["attrs"]] + [(e["urn"], a) for e in s["exts"] for a in e["attrs"]]

    def mutate(self, o, s, d, n=1):
        """n changes of a resource"""
        for _ in range(n):
            if o["k"] != "obj":
                return o
            o = self.mutate1(o, s, d)
        return o

    def mutate1(self, o, s, d):
        k = self.r.randrange(14)
        urn, a = self.pick(self.all_attrs(s))
        if k <= 4:
            return self.put_attr(o, urn, self.case(a["n"]), self.bad(a, d))
        if k == 5:
            return self.put_attr(o, urn, a["n"], self.value(a, d))
        if k == 6:                                    # drop something
            if not o["m"]:
                return o
            x = self.pick(o["m"])[0]
            return O([(y, v) for y, v in o["m"] if y != x])
        if k == 7:
            return O(o["m"] + [(self.pick(["nope", "xyz", "urn:verif:none", "schema"]), self.junk())])
        if k == 8:
            return O([(self.case(x, 0.6), v) for x, v in o["m"]])
        if k == 9:                                    # the same name in two casings
            if not o["m"]:
                return o
            x, v = self.pick(o["m"])
            y = x.swapcase()
            if y == x or x == "$ref":
                return o
            return O(o["m"] + [(y, self.pick([v, self.junk(), NULL]))])
        if k == 10:
            return self.put(o, "schemas", self.schemas_list(s))
        if k == 11 and s["exts"]:
            e = self.pick(s["exts"])
            return self.put(o, self.case(e["urn"]), self.pick([self.junk(), O([]), O([("zz", S("a"))])]))
        if k == 12:
            return self.put(o, "meta", self.pick([self.junk(), O([("resourceType", self.junk())]),
                                                  O([("resourceType", S(self.pick(["User", "Group", "user", ""])))])]))
        return self.put_attr(o, urn, a["n"], NULL)

    def put_attr(self, o, urn, n, v):
        if urn is None:
            return self.put(o, n, v)
        cur = [x for k, x in o["m"] if k.lower() == urn.lower()]
        inner = cur[0] if cur and cur[0]["k"] == "obj" else O([])
        return self.put(o, urn, self.put(inner, n, v))

    def schemas_list(self, s):
        known = [s["urn"]] + [e["urn"] for e in s["exts"]]
        k = self.r.randrange(8)
        if k == 0:
            return self.pick([NULL, L([]), S(s["urn"]), I(1), L([NULL]), L([I(3), S(s["urn"])])])
        xs = self.some(known, 0 if k == 1 else 1)
        if self.p(0.5) and s["urn"] not in xs:
            xs.append(s["urn"])
        if self.p(0.3):
            xs.append(self.pick(["urn:x", "", GROUP, ENT, s["urn"] + "x"]))
        if self.p(0.2) and xs:
            xs.append(xs[0])
        self.r.shuffle(xs)
        return L([S(self.case(x, 0.4)) for x in xs])

    def body(self, name, d, p_ok=0.4, density=0.5):
        o = self.resource(name, d, density)
        if self.p(p_ok):
            return o
        if self.p(0.03):
            return self.junk()
        return self.mutate(o, self.names[name], d, self.pick([1, 1, 1, 2, 3]))

    # -------------------------------------------------------- references
    def refs_of(self, s, subs=True, ext=True):
        out = []
        for urn, a in self.all_attrs(s):
            if urn and not ext:
                continue
            u = urn or s["urn"]
            out.append((u, a["n"], "", a, None))
            if subs:
                out += [(u, a["n"], x["n"], a, x) for x in a["subs"]]
        return out

    def ref(self, s, valid=0.85):
        if not self.p(valid):
            return {"schema": self.pick(["", "", "urn:x", s["urn"]]), "attr": self.pick(["nope", "name", "id"]),
                    "sub": self.pick(["", "", "zip"]), "ext": False}
        u, n, sub, a, _ = self.pick(self.refs_of(s))
        core = u == s["urn"]
        return {"schema": self.case(self.pick([u, "" if core else u]), 0.2), "attr": self.case(n, 0.3),
                "sub": self.case(sub, 0.3) if sub else "", "ext": not core}

    def ref_text(self, s, valid=0.85):
        if not self.p(valid):
            return self.pick(["nope", "", "a b", "a..b", "urn:x:nope", ".x", "name.", "a.b.c", "emails.zip", "x,y", "na-me!", "Na Me", "X.Y.Z"])
        r = self.ref(s, 1)
        return (r["schema"] + ":" if r["schema"] else "") + r["attr"] + ("." + r["sub"] if r["sub"] else "")

    # ----------------------------------------------------------- filters
    def literal(self, a):
        t = a["t"]
        if self.p(0.12):
            return self.pick(['"a"', "1", "true", "null", "1.5", "'b'", '"2024-01-02T03:04:05Z"'])
        if t == "string":
            return '"' + self.pick(["a", "A", "b", "Ab", "abc", "work", "home", "Home", "c", ""]) + '"'
        if t in ("uri", "scim", "external", "binary"):
            return '"' + self.pick(["a", "/Users/1", "http://x.y", "http", "aGk=", "s/1"]) + '"'
        if t == "integer":
            return self.pick(["0", "1", "2", "-3", "1.0", "1.5"])
        if t == "decimal":
            return self.pick(["0.5", "1", "1.25", "0", "-0.5"])
        if t == "boolean":
            return self.pick(["true", "false"])
        if t == "dateTime":
            return '"' + self.pick(DATES + NAIVE[:1]) + '"'
        return self.pick(['"a"', "1", "true"])

    def op_for(self, a):
        t = a["t"]
        if t == "boolean":
            return self.pick(["eq", "ne"])
        return self.pick(["eq", "eq", "ne", "co", "sw", "ew", "gt", "ge", "lt", "le"])

    def leaf(self, name, a, prefix=""):
        """a comparison on attribute a, named name"""
        n = prefix + self.case(name, 0.2)
        if self.p(0.2):
            return f"{n} {self.case('pr', 0.1)}"
        for _ in range(20):
            op = self.op_for(a)
            lit = self.literal(a)
            if op in ("co", "sw", "ew") and lit[0] not in "\"'":
                continue
            if op in ("gt", "ge", "lt", "le") and lit in ("true", "false", "null"):
                continue
            if a["t"] in ("integer", "decimal", "boolean") and (lit in ("true", "false")) != (a["t"] == "boolean"):
                if lit in ("true", "false") or lit[0] in "-0123456789":
                    continue
            return f"{n} {self.case(op, 0.1)} {lit}"
        return f"{n} pr"

    def filter_attrs(self, s):
        core = {a["n"].lower() for a in s["attrs"]}
        return [(u, a) for u, a in self.all_attrs(s) if u is None or a["n"].lower() not in core]

    def filter_leaf(self, s):
        if self.p(0.06):
            return self.pick(["nope pr", 'nope eq "a"', 'name.zip eq "a"', 'nope[value eq "a"]', 'emails[zip eq "a"]'])
        u, a = self.pick(self.filter_attrs(s))
        prefix = (u + ":") if u else self.pick(["", "", "", s["urn"] + ":"])
        if a["t"] == "complex" and not self.p(0.15):
            x = self.pick(a["subs"])
            if self.p(0.5):
                return self.leaf(a["n"] + "." + x["n"], x, prefix)
            return f"{prefix}{self.case(a['n'], 0.2)}[{self.expr(lambda: self.sub_leaf(a), 2)}]"
        if a["t"] == "complex":
            vs = [x for x in a["subs"] if x["n"] == "value"]
            return self.leaf(a["n"], vs[0] if vs else a, prefix)
        return self.leaf(a["n"], a, prefix)

    def sub_leaf(self, a):
        if self.p(0.05):
            return 'zip eq "a"'
        x = self.pick(a["subs"])
        return self.leaf(x["n"], x)

    def expr(self, leaf, depth):
        if depth == 0 or self.p(0.45):
            return leaf()
        k = self.r.randrange(5)
        if k <= 1:
            w = self.pick(["and", "or", "AND", "Or"])
            return f" {w} ".join(self.expr(leaf, depth - 1) for _ in range(self.r.randint(2, 3)))
        if k == 2:
            return f"{self.pick(['not', 'NOT'])} ({self.expr(leaf, depth - 1)})"
        if k == 3:
            return f"({self.expr(leaf, depth - 1)})"
        return f"({self.expr(leaf, depth - 1)}) {self.pick(['and', 'or'])} {self.expr(leaf, depth - 1)}"

    def filter_text(self, s, depth=3):
        return self.expr(lambda: self.filter_leaf(s), depth)

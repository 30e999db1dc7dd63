"""Execution of one event on the implementation."""
import copy
import signal

from world import (
    Attribute, at,
    DETAILS, OPERATORS, RENDER, AttrRep, ResourceSchema, SchemaExtension, AttributePresenceChecker, Filter, ISSUER_NAMES, Invalid, MatchResult, Missing, PatchPath,
    SCIMDataContainer, Sorter, TYPE_NAMES, ValidationError, ValidationIssues, enc, get_schema_rep,
    create_service_provider_config, issues, scim_error, make_attr, make_checker, make_filter, make_ref, make_sorter, node, overrides, rep_v,
)
from enc import INV, MISS, NULL, dec, py


def wrapped(t):
    """the value as it sits inside resource data"""
    if t["k"] == "miss":
        return Missing
    return SCIMDataContainer({"x": dec(t)})["x"]


WATCH = None         # inputs handed to the implementation and their copies


def arg(t):
    """an input value; remembered while inputs are being watched"""
    v = dec(t)
    if WATCH is not None:
        WATCH.append((v, copy.deepcopy(v)))
    return v


def data(t):
    c = SCIMDataContainer(dec(t, lambda x: {"inv": Invalid, "miss": Missing}[x["k"]]))
    if WATCH is not None:
        WATCH.append((c, copy.deepcopy(c.to_dict())))
    return c


LAST = []            # what the implementation handed out in the last call


PATIENCE = 60        # seconds one call may take (they take milliseconds)


class Stuck(BaseException):
    pass


def _stuck(signum, frame):
    raise Stuck()


def run(world, op, a, depth=[0]):
    LAST.clear()
    outer = depth[0] == 0
    depth[0] += 1
    if outer:
        signal.signal(signal.SIGALRM, _stuck)
        signal.setitimer(signal.ITIMER_REAL, PATIENCE)
    try:
        r = RUN[op](world, a)
        r["exc"] = ""
    except Exception as e:  # noqa
        r = {"exc": (str(e) if isinstance(e, Raised) else f"{type(e).__name__}: {e}")[:200]}
    except Stuck:
        if not outer:
            raise
        r = {"exc": f"does not return within {PATIENCE} s"}
    finally:
        depth[0] -= 1
        if outer:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return r


# ------------------------------------------------------------- references
def ref_parse(w, a):
    x = AttrRep.parse(a["s"])
    return {"v": INV if x is Invalid else rep_v(x)}


def ref_show(w, a):
    return {"s": repr(make_ref(a["ref"]))}


def ref_eq(w, a):
    return {"eq": make_ref(a["x"]) == make_ref(a["y"])}


def ref_topeq(w, a):
    return {"eq": make_ref(a["x"]).top_level_equals(make_ref(a["y"]))}


def ref_lookup(w, a):
    x = w.schema(a["schema"]).attrs.get(make_ref(a["ref"]))
    return {"v": NULL if x is None else rep_v(x.rep)}


# ---------------------------------------------------------- resource data
def container(w, a):
    c = SCIMDataContainer(dec(a["init"]))
    out = []
    for s in a["steps"]:
        key = s["key"] if s["text"] else make_ref(s["ref"])
        r = {"v": MISS, "eq": False, "refused": False}
        if s["do"] == "set":
            try:
                c[key] = wrapped_list(s["v"])
            except KeyError:
                r["refused"] = True
        elif s["do"] == "get":
            r["v"] = enc(c[key])
        elif s["do"] == "del":
            del c[key]
        elif s["do"] == "eq":
            other = dec(s["v"])
            r["eq"] = bool(c == (other if s["text"] else SCIMDataContainer(other)))
        r["all"] = enc(c.to_dict())
        out.append(r)
    return {"steps": out}


def wrapped_list(t):
    if t["k"] == "list":
        return [wrapped(x) for x in t["l"]]
    return wrapped(t)


def count_issues(i):
    n = {}
    for x in issues(i):
        key = (tuple(x["loc"]), x["code"])
        n[key] = n.get(key, 0) + 1
    return [{"loc": list(k[0]), "code": k[1], "n": v} for k, v in n.items()]


CODE_MAKERS = {
    1: lambda: ValidationError.bad_value_syntax(),
    2: lambda: ValidationError.bad_type("a", "b"),
    15: lambda: ValidationError.missing(),
    27: lambda: ValidationError.unknown_schema(),
}


def loc_part(p):
    return int(p) if p.isdigit() else p


def issue_history(w, a):
    regs = [ValidationIssues() for _ in range(a["n"])]
    out = []
    for s in a["steps"]:
        reg, other = s["reg"] - 1, s["other"] - 1
        loc = tuple(loc_part(p) for p in s["loc"])
        ans = False
        if s["do"] == "new":
            regs[reg] = ValidationIssues()
        elif s["do"] == "add":
            regs[reg].add(issue=CODE_MAKERS[s["code"]](), proceed=not s["stop"], location=loc)
        elif s["do"] == "merge":
            if loc:
                regs[reg].merge(issues=regs[other], location=loc)
            else:
                regs[reg].merge(issues=regs[other])
        elif s["do"] == "get":
            regs[other] = regs[reg].get(loc)
        elif s["do"] == "pop":
            regs[other] = regs[reg].pop(loc, code=s["code"])
        elif s["do"] in ("proceed", "has"):
            locs = [tuple(loc_part(p) for p in l) for l in s["locs"]]
            f = regs[reg].can_proceed if s["do"] == "proceed" else regs[reg].has_issues
            ans = bool(f() if locs == [()] else f(*locs))
        out.append({"ans": ans, "all": [count_issues(r) for r in regs]})
    return {"steps": out}


# ----------------------------------------------------- attributes, schemas
def attr_call(w, a):
    x = w.schema(a["schema"]).attrs.get(make_ref(a["ref"]))
    v, i = getattr(x, a["dir"])(wrapped(a["v"]))
    return {"v": enc(v), "iss": issues(i)}


def schema_call(w, a):
    v, i = getattr(w.schema(a["schema"]), a["dir"])(arg(a["v"]))
    LAST.extend([v, i])
    iss = issues(i)
    return {"v": enc(v), "iss": iss,
            "n29": len([x for x in iss if x["code"] == 29 and x["loc"] == ["schemas"]])}


def presence(w, a):
    rule = a["rule"]
    inc = {"yes": True, "no": False, "none": None}[rule["inc"]]
    c = AttributePresenceChecker(
        attr_reps=[make_ref(r) for r in rule["reps"]], include=inc,
        ignore_required=[make_ref(r) for r in rule["ign"]])
    i = c(data(a["v"]), w.schema(a["schema"]).attrs, a["dir"])
    return {"iss": issues(i)}


# ---------------------------------------------------------- filters, sort
def filter_parse(w, a):
    f, i = Filter.parse(a["s"])
    return {"v": enc(f), "iss": issues(i)}


def filter_match(w, a):
    f, _ = Filter.parse(a["f"])
    # strict unless told otherwise
    how = () if a["strict"] and len(a["f"]) % 2 else (a["strict"],)
    m = f(data(a["v"]), w.schema(a["schema"]), *how)
    try:
        b = "P" if m else "F"
    except ValueError:
        b = "M"
    return {"v": verdict(m), "b": b, "eq": [bool(m == x) for x in (MatchResult.passed(), MatchResult.failed(), MatchResult.missing_data())]}


def verdict(m):
    if m == True:  # noqa
        return "P"
    if m == False:  # noqa
        return "F"
    return "M"


def sort_call(w, a):
    s = Sorter(attr_rep=make_ref(a["ref"]), asc=a["asc"])
    items = [data(x) for x in a["items"]]
    if WATCH is not None:
        WATCH.append((items, list(items)))
    names = a["schemas"]
    sch = [w.schema(n) for n in names]
    if len(set(names)) <= 1 and a["single"] and names:
        sch = sch[0]
    out = s(items, sch)
    LAST.append(out)
    return {"v": enc(list(out)), "after": enc(items)}


def path_parse(w, a):
    p, i = PatchPath.parse(a["s"])
    return {"v": enc(p), "iss": issues(i)}


def path_eq(w, a):
    x, y = PatchPath.parse(a["x"])[0], PatchPath.parse(a["y"])[0]
    return {"eq": bool(x == y)}


# ---------------------------------------------------------------- messages
def req(x):
    d, i = x
    LAST.extend([d.body, d.query_string, d.headers, i])
    return {"body": enc(d.body), "qs": enc(d.query_string), "headers": enc(d.headers),
            "iss": issues(i)}


def resp(x):
    d, i = x
    LAST.extend([d.body, d.headers, i])
    return {"body": enc(d.body), "headers": enc(d.headers), "iss": issues(i)}


def parse_call(kind):
    def f(w, a):
        names = a.get("schemas") or ([a["schema"]] if "schema" in a else ["User"])
        max_ops = a.get("max", -1)
        k = a.get("kind", kind)
        if k in ("delete", "error", "schemas", "types"):
            names = ()
        v = w.validator(k, names, None if max_ops == -1 else max_ops)
        return req(v.parse_request(body=arg(a["body"]), headers=arg(a["headers"]),
                                   query_string=arg(a["qs"])))
    return f


def dump_call(kind):
    def f(w, a):
        v = w.validator(kind, [a["schema"]])
        kw = {}
        if a["c"]["k"] == "checker":
            kw["presence_checker"] = make_checker(a["c"])
        return resp(v.dump_response(status_code=a["status"], body=arg(a["body"]),
                                    headers=arg(a["headers"]), **kw))
    return f


def delete_dump(w, a):
    return resp(w.validator("delete").dump_response(status_code=a["status"], headers=arg(a["headers"])))


def error_dump(w, a):
    return resp(w.validator("error").dump_response(
        status_code=a["status"], body=arg(a["body"]), headers=arg(a["headers"])))


def list_dump(w, a):
    kind = a["kind"]
    names = () if kind in ("schemas", "types") else a["schemas"]
    v = w.validator(kind, names)
    kw = {}
    if a["start"] != 1:
        kw["start_index"] = a["start"]
    if a["count"] != -1:
        kw["count"] = a["count"]
    if a["f"]["k"] == "str":
        kw["filter_"] = make_filter(a["f"])
    if a["s"]["k"] == "sorter":
        kw["sorter"] = make_sorter(a["s"])
    if a["c"]["k"] == "checker":
        kw["presence_checker"] = make_checker(a["c"])
    return resp(v.dump_response(status_code=a["status"], body=arg(a["body"]),
                                headers=arg(a["headers"]), **kw))


def bulk_dump(w, a):
    kw = {}
    if a["max"] != -1:
        kw["fail_on_errors"] = a["max"]
    v = w.validator("bulk", a["schemas"])
    return resp(v.dump_response(status_code=a["status"], body=arg(a["body"]),
                                headers=arg(a["headers"]), **kw))


# --------------------------------------------------------------- exchanges
def given(x):
    return None if x is None or x is Missing or x is Invalid else x


def exchange(w, a):
    """read the request; -> (validator, what it asks for or None, outcome)"""
    v = w.validator(a["kind"], a["schemas"])
    d, i = v.parse_request(body=arg(a["req"]["body"]), query_string=arg(a["req"]["qs"]))
    if i.has_issues():
        return v, None, {"refused": True, "iss": issues(i)}
    if a["kind"] == "bulk":
        n = given(d.body["failOnErrors"])
        return v, {} if n is None else {"fail_on_errors": n}, {"refused": False}
    src = d.body if a["kind"] == "search" else d.query_string
    kw = {}
    if src is not None:
        wanted = {"presence_checker": "presence_checker"}
        if a["kind"] in ("list", "root", "search"):
            wanted.update({"filter": "filter_", "sorter": "sorter", "count": "count", "startIndex": "start_index"})
        for k, name in wanted.items():
            x = src[k] if a["kind"] == "search" else src.get(k)
            if given(x) is not None or (a["raw"] and k in ("filter", "sorter")):
                kw[name] = x
    return v, kw, {"refused": False}


def serve(w, a):
    v, kw, out = exchange(w, a)
    if kw is None:
        return out
    return {**out, **resp(v.dump_response(status_code=a["status"], body=arg(a["body"]), headers=arg(a["headers"]), **kw))}


def answer(w, a):
    """an honest server: filters, sorts and pages with what it was given"""
    v, kw, out = exchange(w, a)
    if kw is None:
        return out
    rows = [(data(x), w.schema(n)) for x, n in zip(a["items"], a["of"])]
    if given(kw.get("filter_")) is not None:
        rows = [(x, s) for x, s in rows if verdict(kw["filter_"](x, s, False)) == "P"]
    got = [x for x, _ in rows]
    if given(kw.get("sorter")) is not None and got:
        got = list(kw["sorter"](got, [s for _, s in rows]))
    total = len(got)
    start = max(kw.get("start_index", 1), 1)
    page = got if "count" not in kw else got[start - 1:start - 1 + max(kw["count"], 0)]
    body = {"schemas": ["urn:ietf:params:scim:api:messages:2.0:ListResponse"], "totalResults": total}
    if "count" in kw:
        body.update({"startIndex": start, "itemsPerPage": len(page)})
    body["Resources"] = [x.to_dict() for x in page]
    return {**out, "sent": enc(copy.deepcopy(body)), **resp(v.dump_response(status_code=200, body=body, **kw))}


# ------------------------------------------------------------- definitions
def attr_def(x):
    canon = x.canonical_values
    return {
        "n": x.rep.sub_attr or x.rep.attr, "t": TYPE_NAMES[x.type], "mv": x.multi_valued,
        "req": x.required, "ce": x.case_exact, "canon": list(canon or []),
        "mut": x.mutability.value, "ret": x.returned.value, "uniq": x.uniqueness.value,
        "iss": ISSUER_NAMES[x.issuer], "refs": list(x.reference_types),
        "subs": [attr_def(s) for s in x.attrs] if hasattr(x, "attrs") else [],
    }


def schema_def(w, a):
    s = w.schema(a["schema"])
    tops = list(s.attrs.top_level)
    exts = {}
    for x in tops:
        if x.rep.extension:
            exts.setdefault(x.rep.schema, []).append(attr_def(x))
    urns = list(getattr(s, "schemas", [s.schema]))
    return {
        "urn": s.schema, "name": getattr(s, "name", ""), "plural": getattr(s, "plural_name", ""),
        "urns": urns, "attrs": [attr_def(x) for x in tops if not x.rep.extension],
        "exts": [{"urn": u, "attrs": v} for u, v in exts.items()],
    }


def unchanged(value):
    return value, ValidationIssues()


def compose(w, a):
    """resource schemas built from shared attribute and extension objects"""
    lists = {"complex_parsers": [unchanged], "complex_dumpers": [unchanged]}
    attrs = {n: [make_attr(x, lists) for x in w.desc(n)["attrs"][4:]] for n in a["bases"]}
    scs = [ResourceSchema(schema=w.desc(n)["urn"], attrs=attrs[n], name=w.desc(n)["name"], plural_name=w.desc(n)["plural"],
                          attr_overrides=overrides(w.desc(n)["attrs"]))
           for n in a["bases"]]
    exts = [SchemaExtension(schema=e["urn"], attrs=[make_attr(x, lists) for x in e["attrs"]], name="E") for e in a["exts"]]

    def given():
        return [[attr_def(x) for x in l] for l in attrs.values()], [[e.schema] + [attr_def(x) for x in e.attrs] for e in exts], {k: list(v) for k, v in lists.items()}

    before = given()
    out = []
    for s in a["steps"]:
        refused = False
        try:
            scs[s["s"] - 1].with_extension(exts[s["e"] - 1], **({"required": True} if s["req"] else {}))
        except ValueError:
            refused = True
        out.append({"refused": refused, "kept": given() == before, "all": [composed(x, a) for x in scs]})
    return {"steps": out}


def composed(s, a):
    def found(x):
        return NULL if x is None else rep_v(x.rep)

    def named(n):
        try:
            return found(getattr(s.attrs, "__".join(x for x in n if x)))
        except AttributeError:
            return NULL

    v, i = s.parse(dec(a["probe"]))
    every = [{"v": rep_v(x.rep), "ext": x.rep.extension, "mv": x.multi_valued, "req": x.required} for x in s.attrs]
    return {"urns": list(s.schemas), "every": every, "tops": [rep_v(x.rep) for x in s.attrs.top_level],
            "doc": [x["name"] for x in get_schema_rep(s)["attributes"]],
            "found": [found(s.attrs.get(make_ref(r))) for r in a["refs"]],
            "named": [named(n) for n in a["names"]], "v": enc(v), "iss": issues(i)}


# ------------------------------------------------------------ construction
def made(f):
    """what f makes, or that it refuses"""
    try:
        return {"refused": False, **f()}
    except (ValueError, TypeError):
        return {"refused": True}


def ref_make(w, a):
    def f():
        x = make_ref(a)
        return {"v": rep_v(x), "ext": x.extension, "s": repr(x), "top": x.attr_with_schema}
    return made(f)


def path_make(w, a):
    attr_ = make_ref(a["attr"])
    flt = Filter.parse(a["f"])[0] if a["f"] else None
    sub = make_ref(a["sub"]) if a["sub"]["attr"] else None
    return made(lambda: {"v": enc(PatchPath(attr_rep=attr_, complex_filter=flt, complex_filter_attr_rep=sub))})


def attr_make(w, a):
    d = {"n": "x", "t": a["t"], "mv": a["mv"], "req": False, "ce": False, "hc": False, "canon": [], "vc": False, "mut": "readWrite",
         "ret": "default", "uniq": "none", "iss": "none", "post": "", "refs": a["refs"], "subs": []}
    return made(lambda: {"refs": list(make_attr(d).reference_types)})


def op_make(w, a):
    return made(lambda: {"v": node(Filter(OPERATORS[a["op"]](make_ref(a["ref"]), dec(a["v"]))).to_dict())})


def conf_make(w, a):
    def f():
        c = create_service_provider_config(
            documentation_uri=a["doc"],
            bulk={"supported": a["bulk"]["b"], "max_operations": dec(a["maxOps"]), "max_payload_size": dec(a["maxSize"])},
            filter_={"supported": a["filter"]["b"], "max_results": dec(a["maxResults"])},
            patch={"supported": a["patch"]["b"]}, sort={"supported": a["sort"]["b"]}, etag={"supported": a["etag"]["b"]},
            change_password={"supported": a["password"]["b"]})
        return {"v": {"doc": c.documentation_uri, "bulk": enc(c.bulk.supported), "maxOps": enc(c.bulk.max_operations),
                      "maxSize": enc(c.bulk.max_payload_size), "filter": enc(c.filter.supported), "maxResults": enc(c.filter.max_results),
                      "patch": enc(c.patch.supported), "sort": enc(c.sort.supported), "etag": enc(c.etag.supported),
                      "password": enc(c.change_password.supported)}}
    return made(f)


def cont_key(w, a):
    c = SCIMDataContainer(dec(a["init"]))
    before = copy.deepcopy(c.to_dict())

    def f():
        if a["do"] == "get":
            c[a["key"]]
        elif a["do"] == "set":
            c[a["key"]] = "v"
        else:
            del c[a["key"]]
        return {}
    r = made(f)
    r["kept"] = not r["refused"] or c.to_dict() == before
    return r


def attr_eq(w, a):
    return {"eq": bool(make_attr(a["x"]) == make_attr(a["y"]))}


KINDS = {
    "ref": lambda: AttrRep(attr="a", sub_attr="b"),
    "path": lambda: PatchPath.parse("a.b")[0],
    "filter": lambda: Filter.parse("a.b pr")[0],
    "attr": lambda: Attribute(name="a", type_=at.String),
    "object": lambda: SCIMDataContainer({"a": {"b": 1}}),
    "dict": lambda: {"a": {"b": 1}}, "text": lambda: "a.b", "number": lambda: 1, "null": lambda: None, "list": lambda: [1],
}


def kinds_eq(w, a):
    x, y = KINDS[a["x"]](), KINDS[a["y"]]()
    return {"eq": bool(x == y), "ne": bool(x != y)}


def schema_doc(w, a):
    doc = get_schema_rep(w.schema(a["schema"]))
    body = {"schemas": ["urn:ietf:params:scim:api:messages:2.0:ListResponse"],
            "totalResults": 1, "Resources": [copy.deepcopy(doc)]}
    _, i = w.validator("schemas").dump_response(status_code=200, body=body)
    return {"v": enc(doc), "iss": issues(i)}


def ext_doc(w, a):
    e = w.desc(a["schema"])["exts"][a["e"] - 1]
    x = SchemaExtension(schema=e["urn"], attrs=[make_attr(y) for y in e["attrs"]], name="E" + str(a["e"]), description="D")
    doc = x.to_dict()
    return {"v": enc({k: v for k, v in doc.items() if k != "description"}), "d": doc["description"]}


def ready_error(w, a):
    x = getattr(scim_error, a["name"])
    body = {"schemas": ["urn:ietf:params:scim:api:messages:2.0:Error"], **copy.deepcopy(x)}
    d, i = w.validator("error").dump_response(status_code=400, body=body)
    return {"v": enc(x), "out": enc(d.body), "iss": issues(i)}


def round_trip(w, a):
    s = w.schema(a["schema"])
    v1, i1 = s.parse(dec(a["v"]))
    out = {"v1": enc(v1), "iss": issues(i1), "back": [], "again": [], "v2": NULL}
    if not out["iss"]:
        v2, i2 = s.dump(v1.to_dict())
        out["back"] = issues(i2)
        v3, i3 = s.parse(v2.to_dict())
        out["again"] = issues(i3)
        out["v2"] = enc(v3)
    return out


def query_pair(w, a):
    q, qi = w.validator("list", [a["schema"]]).parse_request(body=None, headers=None, query_string=dec(a["qs"]))
    b, bi = w.validator("search", a["schemas"]).parse_request(body=dec(a["body"]), headers=None, query_string=None)
    return {"qs": enc(q.query_string), "qiss": issues(qi), "body": enc(b.body), "biss": issues(bi)}


def release(w, a):
    r = RUN[a["op"]](w, a["a"])
    body = LAST[0]
    re = []
    if a["op"] in ("get.dump", "put.dump", "post.dump", "patch.dump") and body is not None:
        plain = body.to_dict() if isinstance(body, SCIMDataContainer) else body
        re = issues(w.schema(a["a"]["schema"]).parse(plain)[1])
    return {"body": r["body"], "iss": r["iss"], "re": re}


def peek(x, **kw):
    try:
        return x[AttrRep(**kw)]
    except ValueError:
        return None


def scribble(x, seen=None):
    """damage everything mutable in a result"""
    seen = seen if seen is not None else set()
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, SCIMDataContainer):
        for k, inner in list(x.to_dict().items()):
            if ":" in k:
                for kk in list(inner) if isinstance(inner, dict) else ():
                    scribble(peek(x, schema=k, attr=kk, extension=True), seen)
                if isinstance(inner, dict):
                    x[AttrRep(schema=k, attr="scribbled", extension=True)] = "yes"
            else:
                scribble(peek(x, attr=k), seen)
        x["scribbled"] = "yes"
    elif isinstance(x, dict):
        for v in list(x.values()):
            scribble(v, seen)
        x["scribbled"] = "yes"
    elif isinstance(x, list):
        for v in list(x):
            scribble(v, seen)
        x.append("scribbled")
        x.reverse()
    elif isinstance(x, ValidationIssues):
        x.add(issue=ValidationError.unknown_schema(), proceed=False, location=("scribbled",))


def sequence(w, a):
    """a history of calls on shared validators.  Of each call: its outcome,
    the inputs before and after it, the outcome when repeated (after damaging
    everything it handed out), on fresh validators, and after the whole history"""
    global WATCH
    out = []
    for c in a["calls"]:
        WATCH = []
        r = run(w, c["op"], c["a"])
        before, after = [show(v) for _, v in WATCH], [show(v) for v, _ in WATCH]
        WATCH = None
        for x in list(LAST):
            scribble(x)
        out.append({"r": r, "before": before, "after": after, "again": run(w, c["op"], c["a"]),
                    "fresh": run(w.fresh(), c["op"], c["a"])})
    for c, o in zip(a["calls"], out):
        o["end"] = run(w, c["op"], c["a"])
    return {"calls": out}


def show(v):
    return enc(v.to_dict() if isinstance(v, SCIMDataContainer) else v)


def details(w, a):
    """what the issues of a call say when asked for messages and contexts"""
    DETAILS[0] = found = []
    try:
        RUN[a["op"]](w, a["a"])
    finally:
        DETAILS[0] = None
    return {"iss": found}


def nothing(w, a):
    RENDER[0] = True
    try:
        r = run(w, a["op"], a["a"])
    finally:
        RENDER[0] = False
    if r["exc"]:
        raise Raised(r["exc"])
    return {}


class Raised(Exception):
    def __str__(self):
        return self.args[0]


RUN = {
    "nothing": nothing, "details": details, "ref.make": ref_make, "path.make": path_make, "attr.make": attr_make, "op.make": op_make,
    "conf.make": conf_make, "cont.key": cont_key, "attr.eq": attr_eq, "kinds.eq": kinds_eq,
    "ref.parse": ref_parse, "ref.show": ref_show, "ref.eq": ref_eq, "ref.topeq": ref_topeq,
    "ref.lookup": ref_lookup, "cont": container, "issues": issue_history, "attr": attr_call,
    "schema": schema_call, "presence": presence, "filter.parse": filter_parse,
    "filter.match": filter_match, "sort": sort_call, "path.parse": path_parse, "path.eq": path_eq,
    "get.parse": parse_call("get"), "post.parse": parse_call("post"),
    "put.parse": parse_call("put"), "patch.parse": parse_call("patch"),
    "list.parse": parse_call("list"), "root.parse": parse_call("root"),
    "disc.parse": parse_call("schemas"), "search.parse": parse_call("search"),
    "bulk.parse": parse_call("bulk"), "get.dump": dump_call("get"), "put.dump": dump_call("put"),
    "post.dump": dump_call("post"), "patch.dump": dump_call("patch"), "delete.dump": delete_dump,
    "error.dump": error_dump, "list.dump": list_dump, "bulk.dump": bulk_dump,
    "ready.error": ready_error, "ext.doc": ext_doc, "serve": serve, "answer": answer,
    "schema.def": schema_def, "schema.doc": schema_doc,
    "round": round_trip, "compose": compose, "query.pair": query_pair, "rel": release, "seq": sequence,
}

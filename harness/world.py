"""The implementation under test: schemas, validators, calls and encoding of
their outcomes.  Only names that the repository's own tests import are used
(plus the message schema classes for reading definitions)."""
import json
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")

from src.assets.config import create_service_provider_config  # noqa: E402
from src.assets.schemas import (  # noqa: E402
    bulk_ops, error, group, list_response, patch_op, resource_type, schema, search_request,
    service_provider_config, user,
)
from src.attributes_presence import AttributePresenceChecker  # noqa: E402
from src.data import type as at  # noqa: E402
from src.data.attributes import (  # noqa: E402
    Attribute, AttributeIssuer, AttributeMutability, AttributeReturn, AttributeUniqueness,
    ComplexAttribute,
)
from src.data.container import AttrRep, Invalid, Missing, SCIMDataContainer  # noqa: E402
from src.data import operator as op  # noqa: E402
from src.data.operator import MatchResult  # noqa: E402,F401
from src.data.path import PatchPath  # noqa: E402
from src.data.schemas import ResourceSchema, SchemaExtension, get_schema_rep  # noqa: E402
from src.error import ValidationError, ValidationIssues  # noqa: E402
from src.filter import Filter  # noqa: E402
from src import request_validators as rv  # noqa: E402
from src.assets import scim_error  # noqa: E402
from src.sorter import Sorter  # noqa: E402

from enc import INV, MISS, NULL, O, dec, py  # noqa: E402

TYPES = {
    "string": at.String, "integer": at.Integer, "decimal": at.Decimal, "boolean": at.Boolean,
    "binary": at.Binary, "external": at.ExternalReference, "uri": at.URIReference,
    "scim": at.SCIMReference, "dateTime": at.DateTime, "complex": at.Complex,
    "unknown": at.Unknown,
}
TYPE_NAMES = {v: k for k, v in TYPES.items()}
ISSUERS = {"server": AttributeIssuer.SERVER, "client": AttributeIssuer.CLIENT,
           "none": AttributeIssuer.NOT_SPECIFIED}
ISSUER_NAMES = {v: k for k, v in ISSUERS.items()}

OPERATORS = {"eq": op.Equal, "ne": op.NotEqual, "co": op.Contains, "sw": op.StartsWith, "ew": op.EndsWith,
             "gt": op.GreaterThan, "ge": op.GreaterThanOrEqual, "lt": op.LesserThan, "le": op.LesserThanOrEqual}

with open(os.path.join(SPEC, "builtin.json")) as _f:
    BUILTIN = json.load(_f)
SMALL = []            # the small schema of the models
if os.path.exists(os.path.join(SPEC, "small.json")):
    with open(os.path.join(SPEC, "small.json")) as _f:
        SMALL = [{"id": k, "s": v} for k, v in sorted(json.load(_f).items())]


# --------------------------------------------- processors of the schema X1
def fine(v):
    return v, ValidationIssues()


def note(mark):
    def one(o):
        old = o["note"]
        o["note"] = (old if isinstance(old, str) else "") + mark
        return o
    return lambda v: fine([one(o) for o in v] if isinstance(v, list) else one(v))


def complain(stop):
    def f(v):
        i = ValidationIssues()
        if "x" in v:
            i.add(issue=ValidationError.bad_value_syntax(), proceed=not stop)
            return (Invalid if stop else v), i
        return v, i
    return f


def filled(v):
    def one(o):
        if o["value"] is Missing:
            o["value"] = "pre"
        return o
    return fine([one(o) for o in v] if isinstance(v, list) else one(v))


def processors(post, dr):
    m1, m2 = ("<1", "<2") if dr == "parse" else (">1", ">2")
    return {
        "mark": [lambda v: fine(v + m1), lambda v: fine(v + m2)],
        "marks": [lambda v: fine(v + [m1]), lambda v: fine(v + [m2])],
        "noX": [complain(True)], "warnX": [complain(False)],
        "cxMark": [note(m1), note(m2)], "cxPre": [filled],
    }[post]


# ---------------------------------------------------------------- schemas
def make_attr(d, lists=None):
    """lists: processors handed to every complex attribute, in the same list objects"""
    common = dict(
        name=d["n"], required=d["req"], issuer=ISSUERS[d["iss"]], multi_valued=d["mv"],
        mutability=AttributeMutability(d["mut"]), returned=AttributeReturn(d["ret"]),
        uniqueness=AttributeUniqueness(d["uniq"]), description=d.get("desc", ""),
    )
    if d["post"]:
        pre = "complex_" if d["post"] == "cxMark" else ""
        common[pre + "parsers"] = processors(d["post"], "parse")
        common[pre + "dumpers"] = processors(d["post"], "dump")
    if d["t"] == "complex":
        return ComplexAttribute(sub_attributes=[make_attr(s) for s in d["subs"]], **(lists or {}), **common)
    return Attribute(
        type_=TYPES[d["t"]], case_exact=d["ce"],
        canonical_values=list(d["canon"]) if d["hc"] else None,
        validate_canonical_values=d["vc"], reference_types=list(d["refs"]) or None, **common,
    )


def overrides(attrs, lists=None):
    """the common attributes that are declared otherwise than usual"""
    return {a["n"]: make_attr(a, lists) for a, b in zip(attrs[1:4], BUILTIN["User"]["attrs"][1:4]) if a != b} or None


def make_schema(s):
    assert [a["n"] for a in s["attrs"][:4]] == ["schemas", "id", "externalId", "meta"]
    out = ResourceSchema(
        schema=s["urn"], attrs=[make_attr(a) for a in s["attrs"][4:]], name=s["name"],
        plural_name=s["plural"], attr_overrides=overrides(s["attrs"]),
    )
    for e in s["exts"]:
        out.with_extension(
            SchemaExtension(schema=e["urn"], attrs=[make_attr(a) for a in e["attrs"]], name="E")
        )
    return out


class World:
    """schemas (built-in and synthetic) and the validators over them"""

    def __init__(self, synth=()):
        self.synth = {d["id"]: d["s"] for d in synth}
        self.schemas = {}
        self.validators = {}

    def fresh(self):
        return World([{"id": k, "s": v} for k, v in self.synth.items()])

    def desc(self, name):
        return BUILTIN[name] if name in BUILTIN else self.synth[name]

    def schema(self, name):
        if name not in self.schemas:
            self.schemas[name] = self.new_schema(name)
        return self.schemas[name]

    def new_schema(self, name):
        make = {
            "User": lambda: user.User(),
            "Group": lambda: group.Group(),
            "Schema": lambda: schema.Schema(),
            "ResourceType": lambda: resource_type.ResourceType(),
            "Config": lambda: service_provider_config.ServiceProviderConfig(),
            "List": lambda: list_response.ListResponse([self.schema("User")]),
            "Patch": lambda: patch_op.PatchOp(self.schema("User")),
            "BulkReq": lambda: bulk_ops.BulkRequest(),
            "BulkResp": lambda: bulk_ops.BulkResponse(),
            "Error": lambda: error.Error(),
            "Search": lambda: search_request.SearchRequest(),
        }
        return make[name]() if name in make else make_schema(self.synth[name])

    def validator(self, kind, names=(), max_ops=None):
        key = (kind, tuple(names), max_ops)
        if key not in self.validators:
            self.validators[key] = self.new_validator(*key)
        return self.validators[key]

    def new_validator(self, kind, names, max_ops):
        bulk = {} if max_ops is None else {
            "supported": True, "max_operations": max_ops, "max_payload_size": 1000}
        if max_ops == 0:
            bulk = {"max_operations": 0}
        config = create_service_provider_config(bulk=bulk)
        one = {"get": rv.ResourceObjectGET, "put": rv.ResourceObjectPUT,
               "post": rv.ResourcesPOST, "patch": rv.ResourceObjectPATCH, "list": rv.ResourcesGET}
        many = {"root": rv.ServerRootResourceGET, "search": rv.SearchRequestPOST,
                "bulk": rv.BulkOperations}
        if kind in one:
            return one[kind](config, resource_schema=self.schema(names[0]))
        if kind in many:
            return many[kind](config, resource_schemas=[self.schema(n) for n in names])
        if kind == "delete":
            return rv.ResourceObjectDELETE(config)
        if kind == "error":
            return rv.Error()
        if kind == "schemas":
            return rv.SchemasGET(config)
        if kind == "types":
            return rv.ResourceTypesGET(config)
        raise KeyError(kind)


# --------------------------------------------------------------- encoding
def rep_v(r):
    return {"k": "rep", "schema": r.schema, "attr": r.attr, "sub": r.sub_attr}


NOREP = {"k": "rep", "schema": "", "attr": "", "sub": ""}
NONODE = {"op": "", "a": "", "v": MISS, "sub": []}


def node(d):
    sub = [node(x) for x in d.get("sub_ops", [])]
    if "sub_op" in d:
        sub = [node(d["sub_op"])]
    return {"op": d["op"], "a": d.get("attr_rep", ""),
            "v": enc(d["value"]) if "value" in d else MISS, "sub": sub}


def enc(v):
    if v is Invalid:
        return INV
    if v is Missing:
        return MISS
    if isinstance(v, SCIMDataContainer):
        return enc(v.to_dict())
    if isinstance(v, dict):
        return O([(str(k), enc(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return {"k": "list", "l": [enc(x) for x in v]}
    if isinstance(v, PatchPath):
        return {"k": "path", "attr": rep_v(v.attr_rep),
                "f": node(v.complex_filter.to_dict()) if v.complex_filter is not None else NONODE,
                "sub": rep_v(v.complex_filter_attr_rep) if v.complex_filter_attr_rep is not None else NOREP}
    if isinstance(v, Filter):
        return {"k": "filter", "f": node(v.to_dict())}
    if isinstance(v, AttrRep):
        return rep_v(v)
    if isinstance(v, AttributePresenceChecker):
        inc = {True: "yes", False: "no", None: "none"}[v.include]
        return {"k": "checker", "inc": inc,
                "reps": [{"schema": r.schema, "attr": r.attr, "sub": r.sub_attr} for r in v.attr_reps]}
    if isinstance(v, Sorter):
        return {"k": "sorter", "rep": rep_v(v.attr_rep), "asc": v.asc}
    try:
        return py(v)
    except TypeError:
        return {"k": "odd", "s": type(v).__name__}


RENDER = [False]      # also ask for messages and contexts
DETAILS = [None]      # where to keep them


def detail(loc, e):
    ctx = e["context"]
    msg = e["error"]
    told = isinstance(msg, str) and msg != "" and all(str(v) in msg or repr(v) in msg for v in ctx.values())
    return {"loc": list(loc), "code": e["code"], "told": told, "ctx": O([(k, enc(v)) for k, v in ctx.items()])}


def issues(iss):
    out = []
    if RENDER[0]:
        iss.to_dict(msg=True, ctx=True)

    def walk(d, loc):
        for key, val in d.items():
            if key == "_errors":
                out.extend({"loc": list(loc), "code": e["code"]} for e in val)
            else:
                walk(val, loc + (key,))

    walk(iss.to_dict(), ())
    if DETAILS[0] is not None:
        def tell(d, loc):
            for key, val in d.items():
                if key == "_errors":
                    DETAILS[0].extend(detail(loc, e) for e in val)
                else:
                    tell(val, loc + (key,))

        tell(iss.to_dict(msg=True, ctx=True), ())
    return out


def make_ref(d):
    return AttrRep(schema=d["schema"], attr=d["attr"], sub_attr=d["sub"], extension=d.get("ext", False))


def make_checker(c):
    if c["k"] != "checker":
        return None
    inc = {"yes": True, "no": False, "none": None}[c["inc"]]
    return AttributePresenceChecker(attr_reps=[make_ref(r) for r in c["reps"]], include=inc)


def make_filter(f):
    if f["k"] != "str":
        return None
    out, iss = Filter.parse(f["s"])
    return out


def make_sorter(s):
    if s["k"] != "sorter":
        return None
    return Sorter(attr_rep=make_ref(s["rep"]), asc=s["asc"])

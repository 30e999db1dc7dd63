"""Tagged JSON values <-> Python values (see spec/Lib.tla)."""
from datetime import datetime

NULL = {"k": "null"}
INV = {"k": "inv"}
MISS = {"k": "miss"}


def S(s):
    return {"k": "str", "s": s}


def I(i):
    return {"k": "int", "i": i}


def B(b):
    return {"k": "bool", "b": bool(b)}


def L(items):
    return {"k": "list", "l": list(items)}


def O(pairs):
    pairs = dict(tuple(p) for p in (pairs.items() if isinstance(pairs, dict) else pairs))
    return {"k": "obj", "m": [[k, v] for k, v in pairs.items()]}


def num(v):
    """int or float -> tagged"""
    if isinstance(v, int):
        return {"k": "int", "i": v} if abs(v) < 2**31 else {"k": "big", "s": str(v)}
    if v != v:
        return {"k": "nan"}
    if v in (float("inf"), float("-inf")):
        return {"k": "inf", "s": repr(v)}
    n, d = v.as_integer_ratio()
    if abs(n) < (2**31 if d == 1 else 2**24) and d <= 64:
        return {"k": "flt", "n": n, "d": d}
    if d == 1:
        return {"k": "bigf", "s": str(n)}
    return {"k": "fx", "s": repr(v)}


def py(v):
    """plain JSON-like Python data -> tagged"""
    if v is None:
        return NULL
    if isinstance(v, bool):
        return B(v)
    if isinstance(v, (int, float)):
        return num(v)
    if isinstance(v, str):
        return S(v)
    if isinstance(v, datetime):
        return {"k": "dt", "s": v.isoformat()}
    if isinstance(v, (list, tuple)):
        return L([py(x) for x in v])
    if isinstance(v, dict):
        return O([(k, py(x)) for k, x in v.items()])
    raise TypeError(type(v))


def dec(t, special=None):
    """tagged -> Python"""
    k = t["k"]
    if k == "null":
        return None
    if k == "bool":
        return t["b"]
    if k == "int":
        return t["i"]
    if k == "flt":
        return t["n"] / t["d"]
    if k in ("fx", "inf"):
        return float(t["s"])
    if k == "nan":
        return float("nan")
    if k == "big":
        return int(t["s"])
    if k == "bigf":
        return float(int(t["s"]))
    if k == "str":
        return t["s"]
    if k == "dt":
        return datetime.fromisoformat(t["s"])
    if k == "list":
        return [dec(x, special) for x in t["l"]]
    if k == "obj":
        return {p[0]: dec(p[1], special) for p in t["m"]}
    if special is not None:
        return special(t)
    raise ValueError(k)


def has_dup_keys(t):
    if t["k"] == "obj":
        keys = [p[0] for p in t["m"]]
        return len(set(keys)) != len(keys) or any(has_dup_keys(p[1]) for p in t["m"])
    if t["k"] == "list":
        return any(has_dup_keys(x) for x in t["l"])
    return False

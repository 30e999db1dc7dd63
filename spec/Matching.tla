------------------------------ MODULE Matching ------------------------------
(* Filter verdicts and ordering of resources.                               *)
(* Verdicts: "P" passed, "F" failed, "N" failed: no such attribute,         *)
(* "M" undecided: no data to compare                                        *)
EXTENDS Makes

OpTypes(op) ==
  CASE op \in {"eq", "ne"} -> {"string", "decimal", "dateTime", "external", "uri", "scim",
                               "boolean", "binary", "integer", "complex"}
    [] op \in {"co", "sw", "ew"} -> {"string", "uri", "scim", "external", "complex"}
    [] OTHER -> {"string", "dateTime", "integer", "decimal", "complex"}

TextOp(op, x, y) ==
  CASE op = "eq" -> x = y [] op = "ne" -> x # y
    [] op = "co" -> ContainsText(x, y) [] op = "sw" -> StartsWith(x, y) [] op = "ew" -> EndsWith(x, y)
    [] op = "lt" -> StrLt(x, y) [] op = "gt" -> StrLt(y, x)
    [] op = "le" -> ~StrLt(y, x) [] op = "ge" -> ~StrLt(x, y)
NumOp(op, x, y) ==
  CASE op = "eq" -> NumEq(x, y) [] op = "ne" -> ~NumEq(x, y)
    [] op = "lt" -> NumLt(x, y) [] op = "gt" -> NumLt(y, x)
    [] op = "le" -> ~NumLt(y, x) [] op = "ge" -> ~NumLt(x, y)
    [] OTHER -> FALSE
DtOp(op, x, y) ==
  CASE op = "eq" -> DtEq(x, y) [] op = "ne" -> ~DtEq(x, y)
    [] op = "lt" -> DtLt(x, y) [] op = "gt" -> DtLt(y, x)
    [] op = "le" -> ~DtLt(y, x) [] op = "ge" -> ~DtLt(x, y)

(* one value of an attribute against the literal *)
DtTextOf(v) == IF v.k = "dt" THEN v.s ELSE IF v.k = "str" /\ IsDateTime(v.s) THEN v.s ELSE ""
Holds(op, a, v, lit) ==
  IF v.k \in {"null", "miss", "inv"} THEN FALSE
  ELSE IF a.t = "dateTime" THEN
    LET x == DtTextOf(v) y == DtTextOf(lit)
    IN IF DtAware(x) # DtAware(y) THEN FALSE ELSE DtOp(op, x, y)
  ELSE IF lit.k = "null" THEN op = "ne"
  ELSE IF v.k = "str" /\ lit.k = "str" THEN
    IF a.ce THEN TextOp(op, v.s, lit.s) ELSE TextOp(op, Lower(v.s), Lower(lit.s))
  ELSE IF IsNum(v) /\ IsNum(lit) THEN NumOp(op, v, lit)
  ELSE IF v.k = "bool" /\ lit.k = "bool" THEN (op = "eq" /\ v = lit) \/ (op = "ne" /\ v # lit)
  ELSE IF v.k = lit.k /\ v.k \in {"fx", "big"} THEN (op = "eq" /\ v = lit) \/ (op = "ne" /\ v # lit)
  ELSE FALSE

ValueSub(a) == { j \in 1..Len(a.subs) : a.subs[j].n = "value" }
(* d: the definition (or NODEF), v: the data *)
MatchLeaf(op, d, v, lit, strict) ==
  IF ~d.f THEN "N"
  ELSE IF op = "pr" THEN
    LET some == IF d.d.t = "complex" THEN
                  IsList(v) /\ \E i \in 1..Len(v.l) :
                     IsObj(v.l[i]) /\ ~Falsy(Get(v.l[i], Sub1("value")))
                ELSE IF IsList(v) THEN \E i \in 1..Len(v.l) : ~Falsy(v.l[i])
                ELSE IF IsStr(v) THEN v.s # ""
                ELSE ~Absent(v)
    IN IF some THEN "P" ELSE "F"
  ELSE IF Unset(v) THEN IF strict THEN "M" ELSE "P"
  ELSE IF v.k = "inv" THEN "F"
  ELSE
    LET cx == d.d.t = "complex"
        a == IF cx /\ ValueSub(d.d) # {} THEN d.d.subs[CHOOSE j \in ValueSub(d.d) : TRUE] ELSE d.d
        raw == IF IsList(v) THEN v.l ELSE <<v>>
        vals == IF cx THEN [i \in 1..Len(raw) |-> Get(raw[i], Sub1("value"))] ELSE raw
        dtBad == a.t = "dateTime" /\ ( \/ DtTextOf(lit) = ""
                                       \/ \E i \in 1..Len(vals) : DtTextOf(vals[i]) = "" )
    IN IF d.d.t \notin OpTypes(op) THEN "F"
       ELSE IF cx /\ (ValueSub(d.d) = {} \/ ~d.d.mv \/ a.t \notin OpTypes(op)) THEN "F"
       ELSE IF dtBad THEN "F"
       ELSE IF \E i \in 1..Len(vals) : Holds(op, a, vals[i], lit) THEN "P" ELSE "F"

SubDef(a, name) ==
  LET H == { j \in 1..Len(a.subs) : SameText(a.subs[j].n, name) }
  IN IF H = {} THEN NODEF ELSE [f |-> TRUE, d |-> a.subs[CHOOSE j \in H : TRUE]]

(* env: a schema (top level) or a complex attribute (inside brackets) *)
DefIn(env, r) == IF env.top THEN Lookup(env.s, r) ELSE SubDef(env.s, r.attr)
RECURSIVE Verdict(_, _, _, _), CxVerdict(_, _, _, _)
Verdict(n, o, env, strict) ==
  IF n.op = "and" THEN
    LET vs == { Verdict(n.sub[i], o, env, strict) : i \in 1..Len(n.sub) }
    IN IF vs \cap {"F", "N"} # {} THEN "F" ELSE IF "M" \in vs THEN "M" ELSE "P"
  ELSE IF n.op = "or" THEN
    LET vs == { Verdict(n.sub[i], o, env, strict) : i \in 1..Len(n.sub) }
    IN IF "P" \in vs THEN "P" ELSE IF "M" \in vs THEN "M" ELSE "F"
  ELSE IF n.op = "not" THEN
    LET v == Verdict(n.sub[1], o, env, TRUE)
    IN IF v = "F" THEN "P" ELSE IF v = "M" /\ ~strict THEN "P" ELSE "F"
  ELSE LET r == ParseRef(n.a)
           v == IF IsObj(o) THEN Get(o, r) ELSE MISS
           d == DefIn(env, r)
       IN IF n.op = "complex" THEN CxVerdict(n, d, v, strict)
          ELSE MatchLeaf(n.op, d, v, n.v, strict)
CxVerdict(n, d, v, strict) ==
  IF ~d.f THEN "N"
  ELSE IF d.d.t # "complex" THEN "N"
  ELSE
    LET mv == d.d.mv
        w == IF Unset(v) THEN (IF mv THEN List(<<>>) ELSE EMPTY) ELSE v
        items == IF IsList(w) THEN w.l ELSE <<w>>
        s == n.sub[1]
        env == [top |-> FALSE, s |-> d.d]
        vs == { Verdict(s, items[i], env, strict) : i \in 1..Len(items) }
        leaf == s.op \notin {"and", "or", "not"}
        hasVal == \E i \in 1..Len(items) : ~Unset(Get(items[i], ParseRef(s.a)))
    IN IF mv # IsList(w) THEN "F"
       ELSE IF items = <<>> /\ ~strict THEN "P"
       ELSE IF \E i \in 1..Len(items) : ~IsObj(items[i]) THEN "F"
       ELSE IF "P" \in vs THEN "P"
       ELSE IF leaf THEN IF ~hasVal /\ ~strict THEN "P" ELSE "F"
       ELSE IF "M" \in vs /\ ~strict THEN "P" ELSE "F"

Match(n, o, S, strict) == Verdict(n, o, [top |-> TRUE, s |-> S], strict)
Verdict3(v) == IF v = "N" THEN "F" ELSE v

---------------------------------------------------------------------------
(* sorting: keys; "none" sorts last *)
IsSet(v) == ~(Absent(v) \/ Blank(v))
NOKEY == [k |-> "none"]
KeyOf(v, t, ce) ==
  IF ~IsSet(v) \/ IsObj(v) \/ IsList(v) THEN NOKEY
  ELSE IF v.k = "str" THEN IF t = "string" THEN [k |-> "text", s |-> v.s, ce |-> ce] ELSE NOKEY
  ELSE IF v.k = "dt" THEN v
  ELSE IF v.k \in {"int", "flt", "bool"} THEN [k |-> "num", n |-> NumN(v), d |-> NumD(v)]
  ELSE NOKEY
SortKey(r, o, S) ==
  LET d == Lookup(S, r)
      v == Get(o, r)
      prim == { i \in 1..Len(v.l) : IsObj(v.l[i]) /\ IsPrimary(v.l[i]) }
      p == CHOOSE i \in prim : \A j \in prim : i <= j
      vs == { j \in 1..Len(d.d.subs) : SameText(d.d.subs[j].n, "value") }
      vd == d.d.subs[CHOOSE j \in vs : TRUE]
      prims == Get(o, Ref(r.schema, r.attr, "primary")).l
      ps == { i \in 1..Len(prims) : prims[i] = TRUEV }
      p2 == CHOOSE i \in ps : \A j \in ps : i <= j
  IN IF ~d.f THEN NOKEY
     ELSE IF d.d.mv /\ (r.sub = "" \/ ~d.top.a.mv) THEN
       IF ~IsSet(v) THEN KeyOf(v, d.d.t, d.d.ce)
       ELSE IF d.d.t = "complex" THEN
         IF prim = {} \/ vs = {} THEN NOKEY
         ELSE KeyOf(Get(v.l[p], Sub1("value")), vd.t, vd.ce)
       ELSE KeyOf(v.l[1], d.d.t, d.d.ce)
     ELSE IF r.sub # "" /\ IsList(v) /\ ~d.d.mv THEN
       IF ps = {} THEN NOKEY ELSE KeyOf(v.l[p2], d.d.t, d.d.ce)
     ELSE KeyOf(v, d.d.t, d.d.ce)
KeyLt(a, b) ==
  IF a.k = "none" THEN FALSE
  ELSE IF b.k = "none" THEN TRUE
  ELSE IF a.k = "text" THEN IF a.ce \/ b.ce THEN StrLt(a.s, b.s) ELSE StrLt(Lower(a.s), Lower(b.s))
  ELSE IF a.k = "dt" THEN DtLt(a.s, b.s)
  ELSE a.n * b.d < b.n * a.d

(* stable insertion: position list of the sorted sequence *)
RECURSIVE InsertAt(_, _, _, _), SortFrom(_, _, _, _)
InsertAt(order, i, keys, asc) ==
  \* the first place whose element must come after element i
  LET after == { p \in 1..Len(order) :
                   IF asc THEN KeyLt(keys[i], keys[order[p]]) ELSE KeyLt(keys[order[p]], keys[i]) }
      p == CHOOSE x \in after : \A y \in after : x <= y
  IN IF after = {} THEN Append(order, i)
     ELSE SubSeq(order, 1, p - 1) \o <<i>> \o SubSeq(order, p, Len(order))
SortFrom(keys, i, order, asc) ==
  IF i > Len(keys) THEN order ELSE SortFrom(keys, i + 1, TLCEval(InsertAt(order, i, keys, asc)), asc)
SortOrder(keys, asc) == SortFrom(keys, 1, <<>>, asc)
Sorted(r, asc, items, Ss) ==
  LET keys == TLCEval([i \in 1..Len(items) |-> SortKey(r, items[i], Ss[i])])
      ord == SortOrder(keys, asc)
  IN [i \in 1..Len(items) |-> items[ord[i]]]
=============================================================================

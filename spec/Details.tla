------------------------------- MODULE Details ------------------------------
(* What an issue says beyond its place and its code: the context describes  *)
(* the call it was raised for.                                              *)
EXTENDS Builtin

CtxKeys(code) ==
  CASE code = 2 -> {"expected", "provided"} [] code = 3 -> {"scim_type"} [] code = 7 -> {"keyword"} [] code = 8 -> {"value"}
    [] code = 9 -> {"primary_entries"} [] code = 10 -> {"header"} [] code = 11 -> {"value"} [] code = 12 -> {"provided"}
    [] code = 13 -> {"response_status", "body_status"} [] code = 14 -> {"expected_values", "provided"} [] code = 16 -> {"expected", "provided"}
    [] code = 17 -> {"resource_type", "provided"} [] code \in {21, 23} -> {"must"} [] code = 22 -> {"total_results", "n_resources"}
    [] code = 24 -> {"response_key", "response_value", "query_param_name", "query_param_value", "reason"}
    [] code = 29 -> {"extension"} [] code = 30 -> {"other"} [] code = 33 -> {"attr", "sub_attr"} [] code \in {37, 38} -> {"max"}
    [] code = 104 -> {"operator", "expression"} [] code = 105 -> {"operator_type", "operator", "expression"} [] code = 106 -> {"expression"}
    [] code \in {110, 111} -> {"attribute"} [] code = 112 -> {"value"} [] code = 113 -> {"value", "operator"}
    [] OTHER -> {}

(* the part of a value an issue's place names (MISS: none) *)
RECURSIVE PartAt(_, _)
PartAt(v, loc) ==
  IF loc = <<>> THEN v
  ELSE IF IsObj(v) THEN
    LET H == { i \in 1..Len(v.m) : SameText(v.m[i][1], loc[1]) }
    IN IF Cardinality(H) # 1 THEN MISS ELSE PartAt(v.m[CHOOSE i \in H : TRUE][2], Tail(loc))
  ELSE IF IsList(v) THEN
    LET H == { i \in 1..Len(v.l) : Idx(i) = loc[1] }
    IN IF H = {} THEN MISS ELSE PartAt(v.l[CHOOSE i \in H : TRUE], Tail(loc))
  ELSE MISS
Where(op, a, loc) ==
  IF op = "attr" \/ op = "schema" THEN PartAt(a.v, loc)
  ELSE IF op \in {"filter.parse", "path.parse"} THEN Str(a.s)
  ELSE IF loc = <<>> THEN MISS
  ELSE CASE loc[1] = "body" /\ "body" \in DOMAIN a -> PartAt(a.body, Tail(loc))
         [] loc[1] = "headers" -> PartAt(a.headers, Tail(loc))
         [] loc[1] = "query_string" /\ "qs" \in DOMAIN a -> PartAt(a.qs, Tail(loc))
         [] OTHER -> MISS

KindNames(v) ==
  CASE v.k = "bool" -> {"boolean"} [] v.k \in {"int", "big"} -> {"integer"} [] IsFloat(v) -> {"decimal"}
    [] v.k = "str" -> {"string"} [] v.k = "list" -> {"list"} [] v.k = "obj" -> {"complex", "unknown"}
    [] v.k = "dt" -> {"datetime", "dateTime"} [] OTHER -> {"unknown"}
(* the kind of value an attribute takes in one direction *)
Takes(t, dir) ==
  CASE t \in {"string", "uri", "scim", "external", "binary"} -> {"string"}
    [] t = "dateTime" -> IF dir = "parse" THEN {"string"} ELSE {"datetime", "dateTime"}
    [] OTHER -> {t}
RECURSIVE WantedAt(_, _, _)
WantedAt(a, loc, dir) ==
  IF loc = <<>> THEN IF a.mv THEN {"list"} ELSE Takes(a.t, dir)
  ELSE IF a.mv THEN WantedAt([a EXCEPT !.mv = FALSE], Tail(loc), dir)
  ELSE LET H == { i \in 1..Len(a.subs) : SameText(a.subs[i].n, loc[1]) }
       IN IF H = {} THEN {} ELSE WantedAt(a.subs[CHOOSE i \in H : TRUE], Tail(loc), dir)
RECURSIVE DefAt(_, _)
DefAt(a, loc) ==
  IF loc = <<>> \/ (a.mv /\ Len(loc) = 1) THEN [f |-> TRUE, d |-> a]
  ELSE LET rest == IF a.mv THEN Tail(loc) ELSE loc
           H == { i \in 1..Len(a.subs) : SameText(a.subs[i].n, rest[1]) }
       IN IF H = {} THEN [f |-> FALSE] ELSE DefAt(a.subs[CHOOSE i \in H : TRUE], Tail(rest))
(* sub-attributes of a schema document are attributes themselves *)
RECURSIVE Unnested(_)
Unnested(loc) == IF Len(loc) > 1 /\ loc[2] = "subAttributes" THEN Unnested(SubSeq(loc, 3, Len(loc))) ELSE loc
LocIn(d, loc) == IF d.post = "docAttrs" THEN Unnested(loc) ELSE loc
Expected16(op) == CASE op = "post.dump" -> 201 [] op = "delete.dump" -> 204 [] OTHER -> 200

(* an issue of a filter or a path quotes what was written, spaces aside *)
RECURSIVE Joined(_, _)
Joined(parts, i) == IF i > Len(parts) THEN "" ELSE parts[i] \o Joined(parts, i + 1)
Squash(t) == Lower(Joined(SplitBy(t, " "), 1))
QuotesIt(v, c) == c.k # "str" \/ ContainsText(Squash(v.s), Squash(c.s))

(* d: definition of the attribute when the call is about one *)
DetailD(op, a, S, d, o) ==
  LET ctx == o.ctx
      g(w) == Get(ctx, Sub1(w))
      keys == { ctx.m[i][1] : i \in 1..Len(ctx.m) }
      v == Where(op, a, o.loc)
      f(ok, what) == IF ok THEN {} ELSE {<<"issue", o.loc, o.code, what>>}
      isAttr == op = "attr"
      own == IF isAttr THEN DefAt(d, LocIn(d, o.loc)) ELSE [f |-> FALSE]
  IN f(keys = CtxKeys(o.code), "context") \cup f(o.told, "message")
     \cup
     (IF keys # CtxKeys(o.code) THEN {} ELSE
      CASE o.code = 2 ->
             f(g("expected") # g("provided"), "expects what it got")
             \cup f(v.k = "miss" \/ g("provided").s \in KindNames(v), "provided")
             \cup (IF isAttr THEN f(g("expected").s \in WantedAt(d, LocIn(d, o.loc), a.dir), "expected") ELSE {})
        [] o.code = 8 -> f(~IsStr(v) \/ g("value") = v, "value")
        [] o.code = 3 -> f(g("scim_type") = Str("binary"), "type")
        [] o.code = 9 ->
             LET parts == SplitBy(g("primary_entries").s, ",")
                 trim(t) == IF t # "" /\ SubSeq(t, 1, 1) = " " THEN From(t, 2) ELSE t
             IN f(~IsList(v) \/ { trim(parts[i]) : i \in 1..Len(parts) } = { Idx(i) : i \in { j \in 1..Len(v.l) : IsObj(v.l[j]) /\ IsPrimary(Wrap(v.l[j])) } }, "entries")
        [] o.code = 14 ->
             f(v.k = "miss" \/ g("provided") = v, "provided")
             \cup (IF own.f THEN LET c == g("expected_values")
                                     low(s) == IF own.d.ce THEN s ELSE Lower(s)
                                 IN f(IsList(c) /\ { low(c.l[i].s) : i \in 1..Len(c.l) } = { low(own.d.canon[i]) : i \in 1..Len(own.d.canon) }, "allowed values")
                   ELSE {})
        [] o.code = 16 -> IF o.loc # <<"status">> THEN {} ELSE f(g("expected") = IntV(Expected16(op)), "expected") \cup f(g("provided") = IntV(a.status), "provided")
        [] o.code = 12 -> IF op # "error.dump" \/ o.loc # <<"status">> THEN {} ELSE f(g("provided") = IntV(a.status), "provided")
        [] o.code = 13 ->
             LET bulk == op = "bulk.dump"
                 it == PartAt(a.body, SubSeq(o.loc, 2, 3))
                 st == IF bulk THEN PartAt(it, <<"status">>) ELSE Str(ToString(a.status))
                 inner == IF bulk THEN PartAt(it, <<"response", "status">>) ELSE PartAt(a.body, <<"status">>)
             IN f(g("response_status") = st, "status") \cup f(g("body_status") = inner, "status in body")
        [] o.code = 17 -> f(v.k = "miss" \/ g("provided") = v, "provided")
                          \cup (IF op \in {"schema", "get.dump", "put.dump", "post.dump", "patch.dump"} THEN f(g("resource_type") = Str(S.name), "type") ELSE {})
        [] o.code = 22 -> IF op # "list.dump" THEN {}
                          ELSE LET t == PartAt(a.body, <<"totalResults">>)
                                   l == PartAt(a.body, <<"Resources">>)
                               IN f(t.k # "int" \/ g("total_results") = t, "total")
                                  \cup f(~IsList(l) \/ g("n_resources") = IntV(Len(l.l)), "number")
        [] o.code = 24 -> IF op # "list.dump" THEN {}
                          ELSE LET t == PartAt(a.body, <<"startIndex">>)
                               IN f(t.k # "int" \/ g("response_value") = t, "response value") \cup f(g("query_param_value") = IntV(a.start), "parameter")
        [] o.code = 29 -> IF op = "schema" THEN f(PartAt(a.v, <<g("extension").s>>).k # "miss" \/ \E i \in 1..Len(a.v.m) : SameText(a.v.m[i][1], g("extension").s), "extension") ELSE {}
        [] o.code = 30 -> LET me == o.loc[Len(o.loc)] IN f(~SameText(g("other").s, me), "other")
        [] o.code = 37 -> f(g("max") = IntV(a.max), "maximum")
        [] o.code = 38 -> f(g("max") = IntV(a.max), "maximum")
        [] o.code = 10 -> f(SameText(g("header").s, o.loc[Len(o.loc)]), "header")
        [] o.code \in {104, 105, 106, 110, 111, 112, 113} ->
             (IF o.code = 111 /\ Len(o.loc) = 3 /\ o.loc[1] = "query_string" /\ o.loc[2] = "attributes"
                THEN f(g("attribute").s = o.loc[3], "attribute") ELSE {}) \cup
             IF ~IsStr(v) THEN {} ELSE UNION { f(QuotesIt(v, g(k)), k) : k \in CtxKeys(o.code) \ {"operator_type"} }
        [] OTHER -> {})
=============================================================================

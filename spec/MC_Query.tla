------------------------------ MODULE MC_Query ------------------------------
(* Queries: combinations of their parameters, well-formed and not, in a     *)
(* query string, in a search request, and the same query in both.           *)
EXTENDS MC
VARIABLES part_, case_

Fs == {MISS, Str("userName pr"), Str("(a eq 1"), Str(""), IntV(1), Str("a eq \"x\" and not (b.c pr)")}
SBs == {MISS, Str("name.x"), Str("urn:x:a"), Str("a b"), IntV(1), Str("")}
SOs == {MISS, Str("ascending"), Str("Descending"), Str("ASCENDING")}
ATs == {MISS, Str("a"), Str("a.b,urn:x:c"), Texts0(<<"a", "B.c">>), Str("a b"), Str(""), List(<<>>), Str("a,,b"), Texts0(<<"a", "b c">>), NULL}
EXs == {MISS, Str("d"), Texts0(<<"d.e", "f">>), Str("x y,z"), List(<<>>), Str("")}
CNs == {MISS, Str("0"), Str("5"), Str("-1"), Str("x"), Str(""), IntV(0), IntV(7), NULL, Str("1.5"), Str("100000")}
P(f, sb, so, at, ex, cn, si) == Pairs(<<<<"count", cn>>, <<"filter", f>>, <<"attributes", at>>, <<"sortBy", sb>>, <<"excludeAttributes", ex>>, <<"sortOrder", so>>, <<"startIndex", si>>>>)
Combos ==
  { P(f, sb, so, MISS, MISS, MISS, MISS) : f \in Fs, sb \in SBs, so \in SOs }
  \cup { P(f, MISS, MISS, at, ex, MISS, MISS) : f \in {MISS, Str("(a")}, at \in ATs, ex \in EXs }
  \cup { P(MISS, sb, MISS, MISS, MISS, cn, si) : sb \in {MISS, Str("a b")}, cn \in CNs, si \in CNs }
  \cup { P(f, sb, so, at, MISS, cn, si) : f \in {MISS, Str("userName pr")}, sb \in {MISS, Str("name.x")}, so \in {MISS, Str("Descending")},
                                          at \in {MISS, Texts0(<<"a", "B.c">>)}, cn \in {MISS, IntV(0), IntV(7)}, si \in {MISS, IntV(1), IntV(-2)} }
  \cup { P(f, sb, MISS, MISS, ex, cn, MISS) : f \in {MISS, Str("userName pr"), Str("x")}, sb \in {MISS, Str("name.x"), Str("a b")}, ex \in EXs, cn \in {MISS, IntV(3), Str("x")} }
Body(q) == Obj(<<<<"schemas", Texts0(<<SearchS.urn>>)>>>> \o q.m)
(* queries that both forms can state in the same words                      *)
Both(q) == \A i \in 1..Len(q.m) :
  LET k == q.m[i][1] v == q.m[i][2]
  IN CASE k \in {"attributes", "excludeAttributes"} -> IsList(v) [] k \in {"count", "startIndex"} -> v.k = "int" [] k = "sortOrder" -> TRUE [] OTHER -> IsStr(v)
Forms == {"list.parse", "root.parse", "search.parse", "get.parse", "disc.parse", "query.pair"}

Init == part_ \in Forms /\ case_ = NONE
Next ==
  /\ case_ = NONE /\ UNCHANGED part_
  /\ \E q \in Combos :
       /\ part_ = "query.pair" => Both(q)
       /\ part_ = "get.parse" => QsPos(q, "filter", 1) = 0 /\ QsPos(q, "sortBy", 1) = 0
       /\ part_ = "disc.parse" => QsPos(q, "attributes", 1) = 0 /\ QsPos(q, "sortOrder", 1) = 0
       /\ case_' = [q |-> q]
       /\ CASE part_ = "list.parse" -> Emit(part_, [schema |-> "L1", body |-> NULL, qs |-> q, headers |-> NULL])
            [] part_ = "get.parse" -> Emit(part_, [schema |-> "L1", body |-> NULL, qs |-> q, headers |-> NULL])
            [] part_ = "root.parse" -> Emit(part_, [schemas |-> <<"L1", "L2">>, body |-> NULL, qs |-> q, headers |-> NULL])
            [] part_ = "disc.parse" -> Emit(part_, [kind |-> "types", body |-> NULL, qs |-> q, headers |-> NULL])
            [] part_ = "search.parse" -> Emit(part_, [schemas |-> <<"L1", "L2">>, body |-> Body(q), qs |-> NULL, headers |-> NULL])
            [] part_ = "query.pair" -> Emit(part_, [schema |-> "L1", schemas |-> <<"L1", "L2">>, qs |-> q, body |-> Body(q)])
Spec == Init /\ [][Next]_<<part_, case_>>

Field(q, w) == LET v == Get(q, Sub1(w)) IN IF Absent(v) THEN NULL ELSE v
Laws == case_ # NONE =>
  LET q == case_.q
      x == ListGetParse(NULL, q, NULL)
      y == SearchParse(SearchS, Body(q), NULL, NULL)
      g == GetParse(NULL, q, NULL)
  IN \* the two forms accept and mean the same
     /\ (Both(q) => (x.i = {}) = (y.i = {}))
     /\ (Both(q) /\ x.i = {} => \A w \in {"filter", "sorter", "presence_checker", "count", "startIndex"} : SameV(Field(x.qs, w), Field(y.body, w)))
     \* each parameter is judged by itself, but for the two kinds of requested attributes
     /\ x.i = UNION { ListGetParse(NULL, Obj(<<q.m[i]>>), NULL).i : i \in { j \in 1..Len(q.m) : q.m[j][1] \notin {"attributes", "excludeAttributes"} } }
              \cup ListGetParse(NULL, Obj(SelectSeq(q.m, LAMBDA p : p[1] \in {"attributes", "excludeAttributes"})), NULL).i
     \* requested attributes mean the same for one resource and for a list
     /\ g.i = { z \in x.i : z.loc[2] \in {"attributes", "excludeAttributes"} }
     /\ (g.i = {} => SameV(Field(g.qs, "presence_checker"), Field(x.qs, "presence_checker")))
     \* numbers come out as numbers
     /\ (x.i = {} => \A w \in {"count", "startIndex"} : QsGet(x.qs, w).k \in {"int", "null"})
=============================================================================

-------------------------------- MODULE Serve -------------------------------
(* An exchange: a request is read, the query it carries is used to build    *)
(* the answer, and the answer is checked against that same query.           *)
EXTENDS Builtin

(* what a query, once read, asks for: [start, count (or -1), f, s, c] *)
Asked(q, w) == IF ~IsObj(q) THEN NULL ELSE LET v == Get(q, Sub1(w)) IN IF Absent(v) THEN NULL ELSE v
QueryOf(q) ==
  [start |-> LET v == Asked(q, "startIndex") IN IF v.k = "int" THEN v.i ELSE 1,
   count |-> LET v == Asked(q, "count") IN IF v.k = "int" THEN v.i ELSE -1,
   f |-> Asked(q, "filter"), s |-> Asked(q, "sorter"), c |-> Asked(q, "presence_checker")]
NoQuery == [start |-> 1, count |-> -1, f |-> NULL, s |-> NULL, c |-> NULL]

(* the request of an exchange: [q: what it asks for, i: issues]; a request  *)
(* is its kind, its body and its query string                               *)
ReadRequest(kind, allowed, body, qs) ==
  LET S == allowed[1]
      x == CASE kind \in {"list", "root"} -> ListGetParse(body, qs, NULL)
             [] kind = "search" -> SearchParse(SearchS, body, qs, NULL)
             [] kind = "get" -> GetParse(body, qs, NULL)
             [] kind = "post" -> PostParse(S, body, qs, NULL)
             [] kind = "put" -> PutParse(S, body, qs, NULL)
             [] kind = "patch" -> PatchReqParse(PatchS, S, body, qs, NULL)
             [] kind = "bulk" -> BulkParse(BulkReqS, PatchS, allowed, -1, body, qs, NULL)
      max == Get(x.body, Sub1("failOnErrors"))
  IN [q |-> IF x.i # {} THEN NoQuery
            ELSE IF kind = "bulk" THEN [NoQuery EXCEPT !.count = IF max.k = "int" THEN max.i ELSE -1]
            ELSE IF kind = "search" THEN QueryOf(x.body) ELSE QueryOf(x.qs),
      i |-> x.i]
(* the answer, judged by what was asked for *)
Answered(kind, allowed, status, body, headers, q) ==
  LET S == allowed[1]
  IN CASE kind \in {"list", "root", "search"} -> ListDump(ListS, allowed, status, body, headers, q)
       [] kind \in {"get", "put"} -> DumpResource(S, FALSE, 200, status, body, headers, RuleOf(q.c))
       [] kind = "post" -> PostDumpPlain(S, status, body, headers, RuleOf(q.c))
       [] kind = "patch" -> PatchDump(S, status, body, headers, q.c)
       [] kind = "bulk" -> BulkDump(BulkRespS, ErrorS, allowed, status, body, headers, q.count)

(* an honest answer to a query for resources: those that fit, in order, and *)
(* of these the page asked for (all of them if no count is given)           *)
Fitting(q, items, Ss) ==
  LET ok(i) == q.f.k # "filter" \/ Match(q.f.f, items[i], Ss[i], FALSE) = "P"
      RECURSIVE go(_)
      go(i) == IF i > Len(items) THEN <<>> ELSE (IF ok(i) THEN <<i>> ELSE <<>>) \o go(i + 1)
  IN go(1)
InOrder(q, items, Ss) ==
  IF q.s.k # "sorter" THEN items
  ELSE Sorted(Ref(q.s.rep.schema, q.s.rep.attr, q.s.rep.sub), q.s.asc, items, Ss)
Page(q, items) ==
  LET from == IF q.start < 1 \/ q.count = -1 THEN 1 ELSE q.start
      upto == IF q.count = -1 \/ from + AtLeast(0, q.count) - 1 > Len(items) THEN Len(items) ELSE from + AtLeast(0, q.count) - 1
  IN SubSeq(items, from, upto)
HonestItems(q, items, Ss) ==
  LET idx == Fitting(q, items, Ss)
  IN InOrder(q, [i \in 1..Len(idx) |-> items[idx[i]]], [i \in 1..Len(idx) |-> Ss[idx[i]]])
HonestBody(q, all) ==
  LET page == Page(q, all)
  IN Obj(<<<<"schemas", List(<<Str(ListS.urn)>>)>>, <<"totalResults", IntV(Len(all))>>>>
         \o (IF q.count = -1 THEN <<>>
             ELSE <<<<"startIndex", IntV(IF q.start < 1 THEN 1 ELSE q.start)>>, <<"itemsPerPage", IntV(Len(page))>>>>)
         \o <<<<"Resources", List(page)>>>>)
=============================================================================

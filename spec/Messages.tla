------------------------------ MODULE Messages ------------------------------
(* Requests and responses.  Outcome of a call: [body, qs, headers, i].      *)
EXTENDS Patch

Out(body, qs, headers, i) == [body |-> body, qs |-> qs, headers |-> headers, i |-> i]
Gate(body, i) == IF i = {} THEN body ELSE NULL
IsRule(c) == c.k = "checker"
RuleOf(c) == IF IsRule(c) THEN [reps |-> c.reps, inc |-> c.inc, ign |-> <<>>] ELSE NoRule
CheckerV(reps, inc) == [k |-> "checker", reps |-> reps, inc |-> inc]
SorterV(r, asc) == [k |-> "sorter", rep |-> RepV(r), asc |-> asc]
PlainRep(r) == [schema |-> r.schema, attr |-> r.attr, sub |-> r.sub]

---------------------------------------------------------------------------
(* query strings *)
RECURSIVE QsPos(_, _, _)
QsPos(q, name, i) == IF i > Len(q.m) THEN 0 ELSE IF q.m[i][1] = name THEN i ELSE QsPos(q, name, i + 1)
QsGet(q, name) == LET i == QsPos(q, name, 1) IN IF i = 0 THEN NULL ELSE q.m[i][2]
QsPut(q, name, v) == LET i == QsPos(q, name, 1)
                     IN IF i = 0 THEN Obj(Append(q.m, <<name, v>>)) ELSE Obj(PutAt(q.m, i, v))
Texts(v) == IF Falsy(v) THEN <<>>
            ELSE IF IsStr(v) THEN SplitBy(v.s, ",")
            ELSE [i \in 1..Len(v.l) |-> v.l[i].s]
(* requested attributes: [v, i], v a checker or NULL *)
Requested(q) ==
  LET inc == Texts(QsGet(q, "attributes"))
      exc == Texts(QsGet(q, "excludeAttributes"))
      names == IF inc # <<>> THEN inc ELSE exc
      param == IF inc # <<>> THEN "attributes" ELSE "excludeAttributes"
      refs == [i \in 1..Len(names) |-> ParseRef(names[i])]
      bad == { i \in 1..Len(names) : ~IsRef(refs[i]) }
  IN IF inc = <<>> /\ exc = <<>> THEN Ok(NULL)
     ELSE IF inc # <<>> /\ exc # <<>> THEN
       [v |-> INV, i |-> Stop(<<"attributes">>, 30) \cup Stop(<<"excludeAttributes">>, 30)]
     ELSE IF bad # {} THEN
       [v |-> INV, i |-> { Iss(<<param, names[i]>>, 111, TRUE) : i \in bad }]
     ELSE Ok(CheckerV([i \in 1..Len(refs) |-> PlainRep(refs[i])],
                      IF inc # <<>> THEN "yes" ELSE "no"))
WithRequested(q) ==
  IF ~IsObj(q) THEN Ok(q)
  ELSE LET c == Requested(q)
       IN IF c.i = {} THEN Ok(QsPut(q, "presence_checker", c.v))
          ELSE [v |-> q, i |-> At(<<"query_string">>, c.i)]

Ascending(v) == Absent(v) \/ v = Str("") \/ (IsStr(v) /\ Lower(v.s) = "ascending")
IntParam(v) == IF v.k = "int" THEN Ok(v)
               ELSE IF IsStr(v) /\ IsIntText(v.s) THEN Ok(IntV(IntText(v.s)))
               ELSE Bad(2)
TextParam(v, parsed) == IF v.k = "null" THEN Ok(NULL) ELSE IF ~IsStr(v) THEN Bad(2) ELSE parsed
ListQuery(q) ==
  LET ft == QsGet(q, "filter")
      f == TextParam(ft, LET n == ParseFilter(ft.s) IN IF IsNode(n) THEN Ok(FilterV(n)) ELSE Bad(0))
      sb == QsGet(q, "sortBy")
      so == QsGet(q, "sortOrder")
      s == TextParam(sb, LET r == ParseRef(sb.s)
                         IN IF IsRef(r) THEN Ok(SorterV(r, Ascending(so))) ELSE Bad(111))
      c == Requested(q)
      cn == QsGet(q, "count")
      si == QsGet(q, "startIndex")
      n == IF cn.k = "null" THEN Ok(NULL) ELSE IntParam(cn)
      m == IF si.k = "null" THEN Ok(NULL) ELSE IntParam(si)
      q1 == QsPut(QsPut(q, "filter", f.v), "sorter", s.v)
      q2 == IF c.i = {} THEN QsPut(q1, "presence_checker", c.v) ELSE q1
      q3 == IF n.v.k = "int" THEN QsPut(q2, "count", n.v) ELSE q2
      q4 == IF m.v.k = "int" THEN QsPut(q3, "startIndex", m.v) ELSE q3
  IN [v |-> q4,
      i |-> At(<<"query_string">>,
              At(<<"filter">>, f.i) \cup At(<<"sortby">>, s.i) \cup c.i
              \cup At(<<"count">>, n.i) \cup At(<<"startIndex">>, m.i))]
ListGetParse(body, q, headers) ==
  IF q.k = "null" THEN Out(body, q, headers, Stop(<<"query_string">>, 15))
  ELSE IF ~IsObj(q) THEN Out(body, q, headers, Stop(<<"query_string">>, 2))
  ELSE LET x == ListQuery(q) IN Out(body, x.v, headers, x.i)
DiscoveryParse(body, q, headers) ==
  Out(NULL, NULL, headers,
      IF IsObj(q) /\ QsPos(q, "filter", 1) # 0 THEN Stop(<<"query_string", "filter">>, 39) ELSE {})

---------------------------------------------------------------------------
(* single resources *)
GetParse(body, q, headers) == LET x == WithRequested(q) IN Out(body, x.v, headers, x.i)

(* body parsed and checked for required attributes *)
ParseBody(S, body, ign) ==
  LET x == Process(S, body, "parse")
      i1 == At(<<"body">>, x.i)
      i2 == IF Proceed(i1, <<"body">>)
            THEN At(<<"body">>, Presence([NoRule EXCEPT !.ign = ign], S, x.v, "REQUEST")) ELSE {}
  IN [v |-> x.v, i |-> i1 \cup i2]
RECURSIVE Issued(_, _)
Issued(T, i) ==
  IF i > Len(T) THEN <<>>
  ELSE LET x == T[i]
           subs == SelectSeq(x.a.subs, LAMBDA s : s.req /\ s.iss = "server")
       IN (IF x.a.req /\ x.a.iss = "server" THEN <<TopRef(x)>> ELSE <<>>)
          \o [j \in 1..Len(subs) |-> SubRef(x, subs[j])]
          \o Issued(T, i + 1)
PostParse(S, body, q, headers) ==
  LET x == WithRequested(q)
      y == ParseBody(S, body, Issued(Tops(S), 1))
      i == x.i \cup y.i
  IN Out(Gate(y.v, i), x.v, headers, i)
RECURSIVE DropReadOnly(_, _, _), DropSubs(_, _, _)
DropSubs(o, x, j) ==
  IF j > Len(x.a.subs) THEN o
  ELSE DropSubs(IF x.a.subs[j].mut = "readOnly" THEN Del(o, SubRef(x, x.a.subs[j])) ELSE o, x, j + 1)
DropReadOnly(T, i, o) ==
  IF i > Len(T) THEN o
  ELSE DropReadOnly(T, i + 1,
         IF T[i].a.mut = "readOnly" THEN Del(o, TopRef(T[i])) ELSE DropSubs(o, T[i], 1))
PutParse(S, body, q, headers) ==
  LET x == WithRequested(q)
      y == ParseBody(S, body, <<>>)
      i == x.i \cup y.i
  IN Out(IF i = {} THEN DropReadOnly(Tops(S), 1, y.v) ELSE NULL, x.v, headers, i)
PatchReqParse(P, R, body, q, headers) ==
  LET x == WithRequested(q)
      y == PatchParse(P, R, body)
      i1 == At(<<"body">>, y.i)
      i2 == i1 \cup (IF Proceed(i1, <<"body">>) THEN At(<<"body">>, Presence(NoRule, P, y.v, "REQUEST")) ELSE {})
      ops == Get(y.v, Sub1("Operations"))
      b == Under(<<"body">>, i2)
      i3 == IF ~Proceed(i2, <<"body", "Operations">>) THEN {}
            ELSE At(<<"body">>, UNION { NewItemsOf(R, ops.l[j], j, b) : j \in 1..Len(ops.l) })
      i == x.i \cup i2 \cup i3
  IN Out(Gate(y.v, i), x.v, headers, i)

(* a response carrying a resource *)
HeaderLoc(h) == IF IsObj(h) THEN QsGet(h, "Location") ELSE NULL
HasHeaderLoc(h) == IsObj(h) /\ QsPos(h, "Location", 1) # 0
DumpResource(S, needLoc, want, status, body, headers, rule) ==
  LET h == IF Falsy(headers) \/ headers = EMPTY THEN EMPTY ELSE headers
      x == Process(S, body, "dump")
      i1 == At(<<"body">>, x.i)
            \cup (IF needLoc /\ ~HasHeaderLoc(h) THEN Stop(<<"headers", "Location">>, 10) ELSE {})
            \cup (IF status # want THEN Warn(<<"status">>, 16) ELSE {})
      i2 == i1 \cup (IF Proceed(i1, <<"body">>)
                     THEN At(<<"body">>, Presence(rule, S, x.v, "RESPONSE")) ELSE {})
      hl == HeaderLoc(h)
      i3 == IF /\ Proceed(i2, <<"body", "meta", "location">>) /\ Proceed(i2, <<"headers", "Location">>)
               /\ hl.k # "null" /\ Get(x.v, Ref(S.urn, "meta", "location")) # hl
            THEN Warn(<<"body", "meta", "location">>, 11) \cup Warn(<<"headers", "Location">>, 11)
            ELSE {}
      i == i2 \cup i3
  IN Out(Gate(x.v, i), NULL, h, i)
PostDump(S, status, body, headers, rule) ==
  DumpResource(S, TRUE, 201, status, body, headers, rule)
(* an empty body of a creation response is let through *)
PostDumpPlain(S, status, body, headers, rule) ==
  IF Falsy(body) \/ body = EMPTY THEN Out(NULL, NULL, headers, {})
  ELSE PostDump(S, status, body, headers, rule)
PatchDump(S, status, body, headers, c) ==
  IF status = 204 THEN
    Out(NULL, NULL, headers, IF IsRule(c) /\ c.reps # <<>> THEN Warn(<<"status">>, 16) ELSE {})
  ELSE DumpResource(S, FALSE, 200, status, body, headers, RuleOf(c))
DeleteDump(status, headers) ==
  Out(NULL, NULL, headers, IF status # 204 THEN Warn(<<"status">>, 16) ELSE {})
ErrorDump(E, status, body, headers) ==
  LET x == Process(E, body, "dump")
      i1 == At(<<"body">>, x.i)
      i2 == i1 \cup (IF Proceed(i1, <<"body">>)
                     THEN At(<<"body">>, Presence(NoRule, E, x.v, "RESPONSE")) ELSE {})
      i3 == IF Proceed(i2, <<"body", "status">>)
               /\ Get(x.v, Ref(E.urn, "status", "")) # Str(ToString(status))
            THEN Warn(<<"body", "status">>, 13) \cup Warn(<<"status">>, 13) ELSE {}
      i4 == IF status < 300 \/ status >= 600 THEN Warn(<<"status">>, 12) ELSE {}
      i == i2 \cup i3 \cup i4
  IN Out(Gate(x.v, i), NULL, headers, i)

---------------------------------------------------------------------------
(* lists *)
(* the schema of a listed resource: 0 if none *)
Infer(L, allowed, o) ==
  LET v == Get(o, Ref(L.urn, "schemas", ""))
      low == { Lower(v.l[i].s) : i \in 1..Len(v.l) }
      fits(S) == low \subseteq { Lower(u) : u \in ToSet(KnownUrns(S)) }
      H == { i \in 1..Len(allowed) : fits(allowed[i]) }
  IN IF Len(allowed) = 1 THEN 1
     ELSE IF ~IsObj(o) THEN 0
     ELSE IF ~IsList(v) THEN 0
     ELSE IF v.l = <<>> THEN 0
     ELSE IF \E i \in 1..Len(v.l) : ~IsStr(v.l[i]) THEN 0
     ELSE IF H = {} THEN 0 ELSE CHOOSE i \in H : \A j \in H : i <= j
(* sizes: numbers too large to write out exceed all others *)
IsCount(v) == v.k \in {"int", "big"}
CountOf(v) == IF v.k = "int" THEN v.i ELSE IF SubSeq(v.s, 1, 1) = "-" THEN -2147483647 ELSE 2147483647
ListBodyDump(L, allowed, body) ==
  LET x == Process(L, body, "dump")
      R == <<"Resources">>
      res == Get(x.v, Ref(L.urn, "Resources", ""))
      ipp == Get(x.v, Ref(L.urn, "itemsPerPage", ""))
      iip == IF Proceed(x.i, <<"itemsPerPage">>) /\ IsCount(ipp) /\ CountOf(ipp) # Len(res.l)
             THEN Warn(<<"itemsPerPage">>, 11) \cup Warn(R, 11) ELSE {}
      ys == TLCEval([i \in 1..Len(res.l) |->
              LET s == Infer(L, allowed, res.l[i])
              IN IF s = 0 THEN [v |-> INV, i |-> Stop(<<>>, 27)]
                 ELSE Process(allowed[s], res.l[i], "dump")])
  IN IF ~Proceed(x.i, <<>>) THEN x
     ELSE IF res.k = "miss" THEN x
     ELSE IF ~IsList(res) THEN [v |-> x.v, i |-> x.i \cup Stop(R, 2)]
     ELSE [v |-> Set(x.v, Sub1("Resources"), List([i \in 1..Len(ys) |-> ys[i].v])),
           i |-> x.i \cup iip \cup UNION { At(R \o <<Idx(i)>>, ys[i].i) : i \in 1..Len(ys) }]
KeyKinds(keys) == { keys[i].k : i \in 1..Len(keys) } \ {"none"}
AtLeast(m, x) == IF x < m THEN m ELSE x     \* a start below 1 means 1, a negative count 0
(* q: [start, count (or -1), f (filter value or NULL), s (sorter or NULL), c (checker or NULL)] *)
ListDump(L, allowed, status, body, headers, q) ==
  LET B == <<"body">>
      R == <<"body", "Resources">>
      x == ListBodyDump(L, allowed, body)
      i1 == At(B, x.i)
      sib == Get(x.v, Ref(L.urn, "startIndex", ""))
      tot == Get(x.v, Ref(L.urn, "totalResults", ""))
      ipp == Get(x.v, Ref(L.urn, "itemsPerPage", ""))
      res0 == Get(x.v, Ref(L.urn, "Resources", ""))
      res == IF res0.k = "miss" THEN <<>> ELSE res0.l
      i2 == i1 \cup At(B, Presence(NoRule, L, x.v, "RESPONSE"))
            \cup (IF status # 200 THEN Warn(<<"status">>, 16) ELSE {})
      i3 == i2 \cup (IF Proceed(i2, B \o <<"startIndex">>) /\ IsCount(sib) /\ CountOf(sib) # 0 /\ CountOf(sib) > AtLeast(1, q.start)
                     THEN Warn(B \o <<"startIndex">>, 24) ELSE {})
      n == Len(res)
      counts == IF ~IsCount(tot) THEN {}
                ELSE (IF CountOf(tot) < n THEN Warn(R, 22) ELSE {})
                     \cup (IF q.count = -1 /\ CountOf(tot) > n THEN Warn(R, 23) ELSE {})
                     \cup (IF q.count # -1 /\ AtLeast(0, q.count) < n THEN Warn(R, 21) ELSE {})
      paged == q.count > 0 /\ IsCount(tot) /\ CountOf(tot) > n
      i4 == i3 \cup (IF ~Proceed(i3, B \o <<"totalResults">>) THEN {}
                     ELSE counts
                       \cup (IF paged /\ Proceed(i3, B \o <<"startIndex">>) /\ Proceed(i3, B \o <<"itemsPerPage">>)
                             THEN (IF Unset(sib) THEN Stop(B \o <<"startIndex">>, 15) ELSE {})
                                  \cup (IF Unset(ipp) THEN Stop(B \o <<"itemsPerPage">>, 15) ELSE {})
                             ELSE {}))
      inf == TLCEval([i \in 1..n |-> Infer(L, allowed, res[i])])
      i5 == i4 \cup { Iss(R \o <<Idx(i)>>, 27, TRUE) : i \in { j \in 1..n : inf[j] = 0 } }
      Ss == TLCEval([i \in 1..n |-> allowed[inf[i]]])
      fi == IF q.f.k # "filter" THEN {}
            ELSE UNION { IF Match(q.f.f, res[i], Ss[i], FALSE) = "P" THEN {}
                         ELSE Warn(R \o <<Idx(i)>>, 25) : i \in 1..n }
      sr == Ref(q.s.rep.schema, q.s.rep.attr, q.s.rep.sub)
      keys == [i \in 1..n |-> SortKey(sr, res[i], Ss[i])]
      si == IF q.s.k # "sorter" THEN {}
            ELSE IF Cardinality(KeyKinds(keys)) > 1 THEN {}
            ELSE LET sorted == TLCEval(Sorted(sr, q.s.asc, res, Ss))
                 IN IF \A i \in 1..n : DataEq(sorted[i], res[i]) THEN {} ELSE Warn(R, 26)
      pi == UNION { At(R \o <<Idx(i)>>, Presence(RuleOf(q.c), Ss[i], res[i], "RESPONSE")) : i \in 1..n }
      i6 == i5 \cup fi \cup si \cup pi
  IN IF ~Proceed(i1, B) THEN Out(NULL, NULL, headers, i1)
     ELSE IF ~Proceed(i3, R) THEN Out(NULL, NULL, headers, i3)
     ELSE IF HasAt(i4, R) THEN Out(NULL, NULL, headers, i4)
     ELSE IF HasAt(i5, R) THEN Out(NULL, NULL, headers, i5)
     ELSE Out(Gate(x.v, i6), NULL, headers, i6)

(* search requests *)
SearchParse(Q, body, q, headers) ==
  LET x == Process(Q, body, "parse")
      inc == Get(x.v, Ref(Q.urn, "attributes", ""))
      exc == Get(x.v, Ref(Q.urn, "excludeAttributes", ""))
      reps(v) == [i \in 1..Len(v.l) |-> PlainRep(v.l[i])]
      both == ~Falsy(inc) /\ ~Falsy(exc)
      go == Proceed(x.i, <<"attributes">>) /\ Proceed(x.i, <<"excludeAttributes">>)
      i2 == IF go /\ both THEN Stop(<<"attributes">>, 30) \cup Stop(<<"excludeAttributes">>, 30) ELSE {}
      i == x.i \cup i2
      sb == Get(x.v, Ref(Q.urn, "sortBy", ""))
      so == Get(x.v, Ref(Q.urn, "sortOrder", ""))
      v1 == IF ~Falsy(inc) \/ ~Falsy(exc)
            THEN Set(x.v, Sub1("presence_checker"),
                     IF ~Falsy(inc) THEN CheckerV(reps(inc), "yes") ELSE CheckerV(reps(exc), "no"))
            ELSE x.v
      v2 == IF sb.k = "rep" THEN Set(v1, Sub1("sorter"), SorterV(RefOf(sb), Ascending(so))) ELSE v1
  IN IF ~Proceed(x.i, <<>>) THEN Out(NULL, q, headers, At(<<"body">>, x.i))
     ELSE IF i # {} THEN Out(NULL, q, headers, At(<<"body">>, i))
     ELSE Out(v2, q, headers, {})

---------------------------------------------------------------------------
(* bulk *)
After1(s) == LET i == FindFrom(s, "/", 1) IN IF i = 0 THEN "" ELSE From(s, i + 1)
Upto(s) == LET i == FindFrom(s, "/", 1) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
Named1(allowed, name) == LET H == { i \in 1..Len(allowed) : allowed[i].plural = name }
                         IN IF H = {} THEN 0 ELSE CHOOSE i \in H : \A j \in H : j <= i
(* one operation: [v: its new data, i: issues below the operation] *)
BulkOne(P, allowed, o) ==
  LET m == Get(o, Sub1("method"))
      path == Get(o, Sub1("path"))
      data == Get(o, Sub1("data"))
      s == Named1(allowed, IF m.s = "POST" THEN After1(path.s) ELSE Upto(After1(path.s)))
      y == CASE m.s = "POST" -> PostParse(allowed[s], data, NULL, NULL)
             [] m.s = "PUT" -> PutParse(allowed[s], data, NULL, NULL)
             [] m.s = "PATCH" -> PatchReqParse(P, allowed[s], data, NULL, NULL)
  IN IF s = 0 THEN [v |-> o, i |-> Stop(<<"path">>, 36)]
     ELSE IF m.s \in {"GET", "DELETE"} THEN Ok(o)
     ELSE [v |-> Set(o, Sub1("data"), y.body), i |-> At(<<"data">>, Under(<<"body">>, y.i))]
(* B: bulk request schema, P: patch schema, max: -1 or the limit *)
BulkParse(B, P, allowed, max, body, q, headers) ==
  LET O == <<"body", "Operations">>
      x == Process(B, body, "parse")
      i1 == At(<<"body">>, x.i)
      i2 == i1 \cup At(<<"body">>, Presence(NoRule, B, x.v, "RESPONSE"))
      ops == Get(x.v, Sub1("Operations"))
      ok(i) == \A w \in {"path", "data", "method"} : Proceed(i2, O \o <<Idx(i), w>>)
      ys == TLCEval([i \in 1..Len(ops.l) |-> IF ok(i) THEN BulkOne(P, allowed, ops.l[i]) ELSE Ok(ops.l[i])])
      i3 == i2 \cup UNION { At(O \o <<Idx(i)>>, ys[i].i) : i \in 1..Len(ys) }
      i4 == i3 \cup (IF max # -1 /\ Len(ops.l) > max THEN Warn(O, 37) ELSE {})
      v == Set(x.v, Sub1("Operations"), List([i \in 1..Len(ys) |-> ys[i].v]))
  IN IF ~Proceed(i1, <<"body">>) THEN Out(NULL, q, headers, i1)
     ELSE IF ~Proceed(i2, O) THEN Out(NULL, q, headers, i2)
     ELSE Out(Gate(v, i4), q, headers, i4)

At1(allowed, loc) ==
  LET H == { i \in 1..Len(allowed) : ContainsText(loc, "/" \o allowed[i].plural \o "/") }
  IN IF H = {} THEN 0
     ELSE LET i == CHOOSE x \in H : \A y \in H : x <= y IN Named1(allowed, allowed[i].plural)
BulkResp1(E, allowed, o) ==
  LET m == Get(o, Sub1("method"))
      st == Get(o, Sub1("status"))
      loc == Get(o, Sub1("location"))
      ver == Get(o, Sub1("version"))
      resp == Get(o, Sub1("response"))
      hasLoc == IsStr(loc) /\ loc.s # ""
      s == IF hasLoc THEN At1(allowed, loc.s) ELSE 0
      i1 == IF hasLoc /\ s = 0 THEN Stop(<<"location">>, 36) ELSE {}
      status == IntText(st.s)
      h == Obj(<<<<"Location", loc>>>>)
      e == ErrorDump(E, status, resp, NULL)
      y == CASE m.s = "GET" -> DumpResource(allowed[s], FALSE, 200, status, resp, h, NoRule)
             [] m.s = "PUT" -> DumpResource(allowed[s], FALSE, 200, status, resp, h, NoRule)
             [] m.s = "POST" -> IF Falsy(resp) THEN Out(NULL, NULL, h, {})
                                ELSE PostDump(allowed[s], status, resp, h, NoRule)
             [] m.s = "PATCH" -> PatchDump(allowed[s], status, resp, h, NULL)
             [] m.s = "DELETE" -> DeleteDump(status, h)
      differs == Iss(<<"body", "meta", "location">>, 11, FALSE) \in y.i
                 /\ Iss(<<"headers", "Location">>, 11, FALSE) \in y.i
      yi == Without(Without(y.i, <<"body", "meta", "location">>, 11), <<"headers", "Location">>, 11)
      i2 == At(<<"response">>, Under(<<"body">>, yi)) \cup At(<<"status">>, Under(<<"status">>, yi))
            \cup (IF differs THEN Warn(<<"response", "meta", "location">>, 11) \cup Warn(<<"location">>, 11) ELSE {})
      rv == IF y.body.k = "null" THEN NULL ELSE Get(y.body, Ref("", "meta", "version"))
      i3 == IF ~Falsy(ver) /\ ~Falsy(rv) /\ ver # rv
            THEN Warn(<<"response", "meta", "version">>, 11) \cup Warn(<<"version">>, 11) ELSE {}
  IN IF Falsy(m) THEN Ok(o)
     ELSE IF Falsy(st) THEN [v |-> o, i |-> i1]
     ELSE IF Unset(resp) THEN [v |-> o, i |-> i1]
     ELSE IF status >= 300 THEN
       [v |-> Set(o, Sub1("response"), e.body),
        i |-> i1 \cup At(<<"response">>, Under(<<"body">>, e.i)) \cup At(<<"status">>, Under(<<"status">>, e.i))]
     ELSE IF s = 0 THEN [v |-> o, i |-> i1]
     ELSE [v |-> Set(o, Sub1("response"), y.body), i |-> i1 \cup i2 \cup i3]
Failed(o) == LET m == Get(o, Sub1("method"))
                 st == Get(o, Sub1("status"))
             IN ~Falsy(m) /\ ~Falsy(st) /\ IntText(st.s) >= 300
BulkDump(B, E, allowed, status, body, headers, max) ==
  LET O == <<"body", "Operations">>
      x == Process(B, body, "dump")
      i1 == At(<<"body">>, x.i) \cup (IF status # 200 THEN Warn(<<"status">>, 16) ELSE {})
      i2 == i1 \cup At(<<"body">>, Presence(NoRule, B, x.v, "RESPONSE"))
      ops == Get(x.v, Sub1("Operations"))
      ys == TLCEval([i \in 1..Len(ops.l) |-> BulkResp1(E, allowed, ops.l[i])])
      n == Cardinality({ i \in 1..Len(ops.l) : Failed(ops.l[i]) })
      i3 == i2 \cup UNION { At(O \o <<Idx(i)>>, ys[i].i) : i \in 1..Len(ys) }
               \cup (IF max # -1 /\ n > max THEN Warn(O, 38) ELSE {})
      v == Set(x.v, Sub1("Operations"), List([i \in 1..Len(ys) |-> ys[i].v]))
  IN IF ~Proceed(i1, <<"body">>) THEN Out(NULL, NULL, headers, i1)
     ELSE IF ~Proceed(i2, O) THEN Out(NULL, NULL, headers, i2)
     ELSE Out(Gate(v, i3), NULL, headers, i3)
=============================================================================

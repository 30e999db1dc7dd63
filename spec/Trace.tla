-------------------------------- MODULE Trace -------------------------------
(* Validation of recorded calls.  The file named by TRACE_FILE holds a      *)
(* header line and one event per line: {id, op, a: arguments, r: outcome}.  *)
(* Every event is judged against the specification; a mismatch is printed   *)
(* with the clauses that failed and the run goes on.                        *)
EXTENDS Details, Serve, Json, IOUtils

File == ndJsonDeserialize(IOEnv.TRACE_FILE)
Hdr == File[1]
N == Len(File) - 1
Ev(i) == File[i + 1]
KnownDef == ToSet(Hdr.known)

(* schemas by name: the built-in ones or one of the header *)
OwnNames == { Hdr.schemas[i].id : i \in 1..Len(Hdr.schemas) }
OwnS == TLCEval([n \in OwnNames |->
          (Hdr.schemas[CHOOSE i \in 1..Len(Hdr.schemas) : Hdr.schemas[i].id = n]).s])
Sch(n) == IF n \in BuiltinNames THEN BuiltinS[n] ELSE OwnS[n]
Schs(ns) == [i \in 1..Len(ns) |-> Sch(ns[i])]

---------------------------------------------------------------------------
(* comparison of outcomes *)
RECURSIVE Norm(_)
Norm(v) == IF v.k = "list" THEN List([i \in 1..Len(v.l) |-> Norm(v.l[i])])
           ELSE IF v.k = "obj" THEN
             LET p == SelectSeq(v.m, LAMBDA x : x[2].k # "miss")
             IN Obj([i \in 1..Len(p) |-> <<p[i][1], Norm(p[i][2])>>])
           ELSE v
Same(a, b) == SameV(a, b) \/ SameV(Norm(a), Norm(b))
ValueD(x, r) == IF Same(x, r) THEN {} ELSE {<<"value", "expected", x>>}

Covers(e, o) == IF e.code = 0 THEN IsPre(e.loc, o.loc) ELSE e.loc = o.loc /\ e.code = o.code
IssuesD(exp, obs) ==
  LET O == ToSet(obs)
      miss == { e \in exp : ~\E o \in O : Covers(e, o) }
      extra == { o \in O : ~\E e \in exp : Covers(e, o) }
  IN { <<"issue not reported", e.loc, e.code>> : e \in miss }
     \cup { <<"issue reported wrongly", o.loc, o.code>> : o \in extra }

Absentish == {"filter", "sorter", "presence_checker"}
NormQs(q) == IF ~IsObj(q) THEN q
             ELSE Obj(SelectSeq(q.m, LAMBDA x : ~(x[1] \in Absentish /\ Absent(x[2]))))
QsD(x, r) == IF HasAt(x.i, <<"query_string">>) \/ Same(NormQs(x.qs), NormQs(r.qs)) THEN {}
             ELSE {<<"query string", "expected", x.qs>>}
VI(x, r) == ValueD(x.v, r.v) \cup IssuesD(x.i, r.iss)
BodyD(x, r) == IF Same(x.body, r.body) THEN {} ELSE {<<"body", "expected", x.body>>}
HeadD(x, r) == IF Same(x.headers, r.headers) THEN {} ELSE {<<"headers", "expected", x.headers>>}
Req(x, r) == BodyD(x, r) \cup HeadD(x, r) \cup QsD(x, r) \cup IssuesD(x.i, r.iss)
Resp(x, r) == BodyD(x, r) \cup HeadD(x, r) \cup IssuesD(x.i, r.iss)
EqD(x, r) == IF x = r THEN {} ELSE {<<"result", "expected", ToString(x)>>}

---------------------------------------------------------------------------
(* resource data: a history of steps on one container *)
StepRef(s) == IF s.text THEN ParseRef(s.key)
              ELSE [schema |-> s.ref.schema, attr |-> s.ref.attr, sub |-> s.ref.sub, ext |-> s.ref.ext]
RECURSIVE ContRun(_, _, _, _, _)
ContRun(steps, rs, i, o, d) ==
  IF i > Len(steps) \/ d # {} THEN d
  ELSE
    LET s == steps[i]
        r == rs[i]
        ref == StepRef(s)
        o2 == IF s.do = "set" THEN Set(o, ref, s.v)
              ELSE IF s.do = "del" THEN Del(o, ref) ELSE o
        bad == (IF s.do = "get" /\ ~SameV(Get(o, ref), r.v) THEN {<<"read", i, Get(o, ref)>>} ELSE {})
               \cup (IF s.do = "eq" /\ DataEq(o, Wrap(s.v)) # r.eq THEN {<<"equality", i>>} ELSE {})
               \cup (IF s.do = "set" /\ Refuses(o, ref, s.v) # r.refused THEN {<<"refusal", i>>} ELSE {})
               \cup (IF ~SameV(o2, r.all) THEN {<<"contents", i, o2>>} ELSE {})
    IN ContRun(steps, rs, i + 1, o2, bad)

(* issue collections: a history over numbered collections *)
RECURSIVE IssRun(_, _, _, _, _)
IssRun(steps, rs, i, regs, d) ==
  IF i > Len(steps) \/ d # {} THEN d
  ELSE
    LET s == steps[i]
        r == rs[i]
        q == regs[s.reg]
        regs2 ==
          CASE s.do = "new" -> [regs EXCEPT ![s.reg] = <<>>]
            [] s.do = "add" -> [regs EXCEPT ![s.reg] = QAdd(q, s.loc, s.code, s.stop)]
            [] s.do = "merge" -> [regs EXCEPT ![s.reg] = QMerge(q, regs[s.other], s.loc)]
            [] s.do = "get" -> [regs EXCEPT ![s.other] = QGet(q, s.loc)]
            [] s.do = "pop" -> [regs EXCEPT ![s.other] = QPopped(q, s.loc, s.code),
                                            ![s.reg] = QRest(q, s.loc, s.code)]
            [] OTHER -> regs
        bad ==
          (IF s.do = "proceed" /\ (\A j \in 1..Len(s.locs) : QProceed(q, s.locs[j])) # r.ans
           THEN {<<"may proceed", i>>} ELSE {})
          \cup (IF s.do = "has" /\ (\E j \in 1..Len(s.locs) : QHas(q, s.locs[j])) # r.ans
                THEN {<<"has issues", i>>} ELSE {})
          \cup { <<"contents of collection", g, i, QCount(regs2[g])>> :
                 g \in { h \in 1..Len(regs2) : QCount(regs2[h]) # { <<x.loc, x.code, x.n>> : x \in ToSet(r.all[h]) } } }
    IN IssRun(steps, rs, i + 1, TLCEval(regs2), bad)

RefA(x) == [schema |-> x.schema, attr |-> x.attr, sub |-> x.sub, ext |-> x.ext]
LookupV(d) == IF d.f THEN RepV(d.r) ELSE NULL
---------------------------------------------------------------------------
(* schemas composed from shared attributes and extensions, over a history   *)
RECURSIVE CompRun(_, _, _, _, _)
CompRun(a, rs, i, sc, d) ==
  IF i > Len(a.steps) \/ d # {} THEN d
  ELSE
    LET s == a.steps[i]
        r == rs[i]
        x == a.exts[s.e]
        no == Composed(sc[s.s], x)
        sc2 == TLCEval(IF no THEN sc ELSE [sc EXCEPT ![s.s] = Compose(sc[s.s], x)])
        f(g, ok, what) == IF ok THEN {} ELSE {<<"step", i, "schema", g, what>>}
        see(g) ==
          LET S == sc2[g]
              o == r.all[g]
              t == Tops(S)
              y == Process(S, a.probe, "parse")
          IN f(g, [j \in 1..Len(o.urns) |-> o.urns[j]] = <<S.urn>> \o [j \in 1..Len(S.exts) |-> S.exts[j].urn], "identifiers")
             \cup f(g, o.tops = [j \in 1..Len(t) |-> RepV(TopRef(t[j]))], "attributes")
             \cup f(g, ToSet(o.every) = { [v |-> RepV(TopRef(t[j])), ext |-> t[j].ext, mv |-> t[j].a.mv, req |-> t[j].a.req] : j \in 1..Len(t) }
                    \cup UNION { { [v |-> RepV(SubRef(t[j], t[j].a.subs[k])), ext |-> t[j].ext, mv |-> t[j].a.subs[k].mv, req |-> t[j].a.subs[k].req]
                                  : k \in 1..Len(t[j].a.subs) } : j \in 1..Len(t) }, "definitions")
             \cup f(g, o.doc = [j \in 1..Len(t) |-> t[j].a.n], "document")
             \cup f(g, \A j \in 1..Len(a.refs) : o.found[j] = LookupV(Lookup(S, RefA(a.refs[j]))), "lookup")
             \cup f(g, \A j \in 1..Len(a.names) : o.named[j] = LookupV(Lookup(S, Ref("", a.names[j][1], a.names[j][2]))), "access by name")
             \cup { <<"step", i, "schema", g, "parse: " \o ToString(c)>> : c \in VI(y, o) }
    IN CompRun(a, rs, i + 1, sc2,
               (IF no # r.refused THEN {<<"step", i, "refused", no>>} ELSE {})
               \cup (IF r.kept THEN {} ELSE {<<"step", i, "definitions given were modified">>})
               \cup UNION { see(g) : g \in 1..Len(sc2) })

---------------------------------------------------------------------------
(* definitions as the code states them *)
Lows(s) == { Lower(s[i]) : i \in 1..Len(s) }
RECURSIVE DefD(_, _, _)
DefD(a, r, loc) ==
  LET p == loc \o <<a.n>>
      f(name, x, y) == IF x = y THEN {} ELSE {<<name, p, x, y>>}
      g == IF a.ce THEN ToSet(a.canon) = ToSet(r.canon) ELSE Lows(a.canon) = Lows(r.canon)
  IN f("name", a.n, r.n) \cup f("type", a.t, r.t) \cup f("multi-valued", a.mv, r.mv)
     \cup f("required", a.req, r.req) \cup f("case-exact", a.ce, r.ce)
     \cup f("mutability", a.mut, r.mut) \cup f("returned", a.ret, r.ret)
     \cup f("uniqueness", a.uniq, r.uniq) \cup f("issuer", a.iss, r.iss)
     \cup f("reference types", a.refs, r.refs)
     \cup (IF g THEN {} ELSE {<<"canonical values", p>>})
     \cup (IF Len(a.subs) # Len(r.subs) THEN {<<"sub-attributes", p>>}
           ELSE UNION { DefD(a.subs[i], r.subs[i], p) : i \in 1..Len(a.subs) })
DefsD(as, rs, loc) ==
  IF Len(as) # Len(rs) THEN {<<"attributes", loc, Len(as), Len(rs)>>}
  ELSE UNION { DefD(as[i], rs[i], loc) : i \in 1..Len(as) }
SchemaDefD(S, r) ==
  EqD([urn |-> S.urn, name |-> S.name, plural |-> S.plural, urns |-> KnownUrns(S)],
      [urn |-> r.urn, name |-> r.name, plural |-> r.plural, urns |-> r.urns])
  \cup DefsD(S.attrs, r.attrs, <<>>)
  \cup (IF Len(S.exts) # Len(r.exts) THEN {<<"extensions">>}
        ELSE UNION { (IF S.exts[i].urn = r.exts[i].urn THEN {} ELSE {<<"extension", i>>})
                     \cup DefsD(S.exts[i].attrs, r.exts[i].attrs, <<S.exts[i].urn>>)
                     : i \in 1..Len(S.exts) })

(* the document of an attribute / a schema *)
TextList(l) == List([i \in 1..Len(l) |-> Str(l[i])])
Boolv(b) == [k |-> "bool", b |-> b]
(* equal up to letter case of canonical values and to descriptions *)
RECURSIVE DocD(_, _, _)
DocD(a, o, loc) ==
  LET p == loc \o <<a.n>>
      g(w) == Get(o, Sub1(w))
      f(w, v) == IF SameV(g(w), v) THEN {} ELSE {<<"document", p, w, v>>}
      canon == g("canonicalValues")
      lows(v) == { IF a.ce THEN v.l[i].s ELSE Lower(v.l[i].s) : i \in 1..Len(v.l) }
      subs == g("subAttributes")
      known == {"name", "type", "multiValued", "description", "required", "caseExact", "mutability",
                "returned", "uniqueness", "canonicalValues", "referenceTypes", "subAttributes"}
  IN f("name", Str(a.n)) \cup f("type", Str(ScimName(a.t))) \cup f("multiValued", Boolv(a.mv))
     \cup f("required", Boolv(a.req)) \cup f("caseExact", Boolv(a.ce)) \cup f("mutability", Str(a.mut))
     \cup f("returned", Str(a.ret)) \cup f("uniqueness", Str(a.uniq))
     \cup (IF "desc" \in DOMAIN a THEN f("description", Str(a.desc)) ELSE {})
     \cup f("referenceTypes", IF a.refs = <<>> THEN MISS ELSE TextList(a.refs))
     \cup (IF IF a.hc /\ a.canon # <<>>
              THEN IsList(canon) /\ lows(canon) = (IF a.ce THEN ToSet(a.canon) ELSE Lows(a.canon))
              ELSE canon.k = "miss"
           THEN {} ELSE {<<"document", p, "canonicalValues">>})
     \cup { <<"document", p, w>> : w \in { o.m[i][1] : i \in 1..Len(o.m) } \ known }
     \cup (IF a.t # "complex" THEN f("subAttributes", MISS)
           ELSE IF ~IsList(subs) \/ Len(subs.l) # Len(a.subs) THEN {<<"document", p, "subAttributes">>}
           ELSE UNION { DocD(a.subs[i], subs.l[i], p) : i \in 1..Len(a.subs) })
SchemaDocD(S, o) ==
  LET at == Get(o, Sub1("attributes"))
      T == Tops(S)
  IN (IF SameV(Get(o, Sub1("id")), Str(S.urn)) THEN {} ELSE {<<"document", "id">>})
     \cup (IF SameV(Get(o, Sub1("name")), Str(S.name)) THEN {} ELSE {<<"document", "name">>})
     \cup (IF SameV(Get(o, Sub1("schemas")), List(<<Str(SchemaS.urn)>>)) THEN {} ELSE {<<"document", "schemas">>})
     \cup (IF SameV(Get(o, Ref("", "meta", "resourceType")), Str("Schema")) THEN {} ELSE {<<"document", "meta">>})
     \cup (IF ~IsList(at) \/ Len(at.l) # Len(T) THEN {<<"document", "attributes">>}
           ELSE UNION { DocD(T[i].a, at.l[i], <<>>) : i \in 1..Len(T) })

---------------------------------------------------------------------------
RuleA(x) == [reps |-> x.reps, inc |-> x.inc, ign |-> x.ign]
QueryA(a) == [start |-> a.start, count |-> a.count, f |-> a.f, s |-> a.s, c |-> a.c]
FilterOf(f) == IF f.k = "str" THEN FilterV(ParseFilter(f.s)) ELSE f

(* the outcome of each message call *)
RequestOps == {"get.parse", "post.parse", "put.parse", "patch.parse", "list.parse", "root.parse",
               "disc.parse", "search.parse", "bulk.parse"}
ResponseOps == {"get.dump", "put.dump", "post.dump", "patch.dump", "delete.dump", "error.dump",
                "list.dump", "bulk.dump"}
Outcome(op, a) ==
  CASE op = "get.parse" -> GetParse(a.body, a.qs, a.headers)
    [] op = "post.parse" -> PostParse(Sch(a.schema), a.body, a.qs, a.headers)
    [] op = "put.parse" -> PutParse(Sch(a.schema), a.body, a.qs, a.headers)
    [] op = "patch.parse" -> PatchReqParse(PatchS, Sch(a.schema), a.body, a.qs, a.headers)
    [] op \in {"get.dump", "put.dump"} ->
         DumpResource(Sch(a.schema), FALSE, 200, a.status, a.body, a.headers, RuleOf(a.c))
    [] op = "post.dump" -> PostDumpPlain(Sch(a.schema), a.status, a.body, a.headers, RuleOf(a.c))
    [] op = "patch.dump" -> PatchDump(Sch(a.schema), a.status, a.body, a.headers, a.c)
    [] op = "delete.dump" -> DeleteDump(a.status, a.headers)
    [] op = "error.dump" -> ErrorDump(ErrorS, a.status, a.body, a.headers)
    [] op \in {"list.parse", "root.parse"} -> ListGetParse(a.body, a.qs, a.headers)
    [] op = "disc.parse" -> DiscoveryParse(a.body, a.qs, a.headers)
    [] op = "search.parse" -> SearchParse(SearchS, a.body, a.qs, a.headers)
    [] op = "list.dump" ->
         ListDump(ListS, Schs(a.schemas), a.status, a.body, a.headers,
                  [QueryA(a) EXCEPT !.f = FilterOf(a.f)])
    [] op = "bulk.parse" -> BulkParse(BulkReqS, PatchS, Schs(a.schemas), a.max, a.body, a.qs, a.headers)
    [] op = "bulk.dump" -> BulkDump(BulkRespS, ErrorS, Schs(a.schemas), a.status, a.body, a.headers, a.max)

(* release of bodies: nothing with an issue, everything without, and no     *)
(* placeholders in what is released                                         *)
Released(op, a, r) ==
  LET x == Outcome(op, a)
      out == r.body.k # "null"
  IN (IF out /\ \E o \in ToSet(r.iss) : o.loc # <<>> /\ o.loc[1] = "body" THEN {<<"released with issues">>} ELSE {})
     \cup (IF out /\ x.i # {} /\ Absent(x.body) THEN {<<"released although faulty", x.i>>} ELSE {})
     \cup (IF out /\ HasPlaceholder(Norm(r.body)) THEN {<<"placeholder released">>} ELSE {})
     \cup (IF x.i = {} /\ r.iss = <<>> /\ ~Same(x.body, r.body) THEN {<<"body incomplete", x.body>>} ELSE {})
     \cup (IF r.re # <<>> THEN {<<"released data not accepted again", r.re>>} ELSE {})

(* what a request yields can be sent back and read again *)
RoundD(S, v, r) ==
  LET x == Process(S, v, "parse")
      back == { o \in ToSet(r.back) : ~(o.loc = <<"meta", "resourceType">> /\ o.code = 17) }
  IN IF x.i # {} THEN IF r.iss # <<>> THEN {} ELSE {<<"accepted wrongly">>}
     ELSE (IF r.iss = <<>> THEN {} ELSE {<<"refused wrongly", r.iss>>})
          \cup (IF back = {} THEN {} ELSE {<<"not accepted in a response", back>>})
          \cup (IF r.again = <<>> THEN {} ELSE {<<"not accepted again", r.again>>})
          \cup (IF Same(r.v1, r.v2) THEN {} ELSE {<<"different after a round trip">>})
          \cup ValueD(x.v, r.v1)

(* a query in a query string and in a search request *)
QField(q, w) == LET v == Get(q, Sub1(w)) IN IF Absent(v) THEN NULL ELSE v
PairD(r) ==
  IF (r.qiss = <<>>) # (r.biss = <<>>) THEN {<<"accepted in one form only">>}
  ELSE IF r.qiss # <<>> THEN {}
  ELSE { <<"understood differently", w>> :
         w \in { x \in {"filter", "sorter", "presence_checker", "count", "startIndex"} :
                 ~Same(QField(r.qs, x), QField(r.body, x)) } }

(* exchanges: refused for the request's own issues, else judged by what it asks for *)
ServeD(a, r, Judge(_)) ==
  LET x == ReadRequest(a.kind, Schs(a.schemas), a.req.body, a.req.qs)
  IN IF x.i # {} THEN IF ~r.refused THEN {<<"request accepted wrongly">>} ELSE IssuesD(x.i, r.iss)
     ELSE IF r.refused THEN {<<"request refused wrongly", r.iss>>}
     ELSE Judge(x.q)
AnswerD(a, r, q) ==
  LET allowed == Schs(a.schemas)
      body == HonestBody(q, HonestItems(q, [i \in 1..Len(a.items) |-> Wrap(a.items[i])], Schs(a.of)))
  IN ValueD(body, r.sent) \cup Resp(Answered(a.kind, allowed, 200, body, NULL, q), r)

RECURSIVE Check(_)
Check(ev) ==
  LET a == ev.a
      r == ev.r
      op == ev.op
  IN
  IF r.exc # "" THEN {<<"raised", r.exc>>}
  ELSE
  CASE op = "nothing" -> {}
    [] op = "ref.parse" -> LET x == ParseRef(a.s) IN EqD(IF IsRef(x) THEN RepV(x) ELSE INV, r.v)
    [] op = "ref.show" -> EqD(ShowRef(RefA(a.ref)), r.s)
    [] op = "ref.eq" -> EqD(RefEq(RefA(a.x), RefA(a.y)), r.eq)
    [] op = "ref.topeq" -> EqD(TopEq(RefA(a.x), RefA(a.y)), r.eq)
    [] op = "ref.lookup" -> EqD(LookupV(Lookup(Sch(a.schema), RefA(a.ref))), r.v)
    [] op = "cont" -> ContRun(a.steps, r.steps, 1, Wrap(a.init), {})
    [] op = "issues" -> IssRun(a.steps, r.steps, 1, [g \in 1..a.n |-> <<>>], {})
    [] op = "compose" -> CompRun(a, r.steps, 1, [i \in 1..Len(a.bases) |-> [Sch(a.bases[i]) EXCEPT !.exts = <<>>]], {})
    [] op = "attr" -> LET d == Lookup(Sch(a.schema), RefA(a.ref)).d
                      IN VI(AttrVal(d, Wrap(a.v), a.dir), r)
    [] op = "schema" ->
         LET x == Process(Sch(a.schema), a.v, a.dir)
             urns == Get(x.v, Sub1("schemas"))
         IN VI(x, r)
            \cup (IF Iss(<<"schemas">>, 29, FALSE) \in x.i
                  THEN EqD(MissingExts(x.v, urns.l, Sch(a.schema)), r.n29) ELSE {})
    [] op = "round" -> RoundD(Sch(a.schema), a.v, r)
    [] op = "presence" -> IssuesD(Presence(RuleA(a.rule), Sch(a.schema), Wrap(a.v), a.dir), r.iss)
    [] op = "filter.parse" ->
         LET n == ParseFilter(a.s)
         IN IF IsNode(n) THEN VI(Ok(FilterV(n)), r)
            ELSE (IF r.v.k = "inv" THEN {} ELSE {<<"accepted an ill-formed filter">>})
                 \cup (IF r.iss # <<>> THEN {} ELSE {<<"no issue for an ill-formed filter">>})
    [] op = "filter.match" ->
         LET n == ParseFilter(a.f)
             x == Verdict3(Match(n, Wrap(a.v), Sch(a.schema), a.strict))
             \* a verdict equals others of its kind (failing for want of the attribute is a kind of its own)
             kinds == <<x = "P", r.eq[2], x = "M">>
         IN EqD(x, r.v) \cup EqD(x, r.b) \cup EqD(kinds, r.eq) \cup (IF r.eq[2] /\ x # "F" THEN {<<"equals a failure">>} ELSE {})
    [] op = "sort" ->
         LET items == [i \in 1..Len(a.items) |-> Wrap(a.items[i])]
             x == Sorted(RefA(a.ref), a.asc, items, Schs(a.schemas))
         IN ValueD(List(x), r.v) \cup ValueD(List(items), r.after)
    [] op = "path.parse" ->
         LET x == ParsePath(a.s)
         IN IF x.k = "path" THEN VI(Ok(x), r)
            ELSE (IF r.v.k = "inv" THEN {} ELSE {<<"accepted an ill-formed path">>})
                 \cup (IF r.iss # <<>> THEN {} ELSE {<<"no issue for an ill-formed path">>})
    [] op = "path.eq" ->
         LET x == ParsePath(a.x)
             y == ParsePath(a.y)
             sub(p) == Ref(p.sub.schema, p.sub.attr, p.sub.sub)
         IN EqD(/\ RefEq(RefOf(x.attr), RefOf(y.attr))
                /\ x.f = y.f
                /\ (x.sub.attr = "") = (y.sub.attr = "")
                /\ (x.sub.attr = "" \/ RefEq(sub(x), sub(y))), r.eq)
    [] op = "ref.make" ->
         LET x == Ref(a.schema, a.attr, a.sub)
         IN IF ~RefMade(a.schema, a.attr, a.sub, a.ext) THEN EqD(TRUE, r.refused)
            ELSE IF r.refused THEN {<<"refused">>}
            ELSE EqD(RepV(x), r.v) \cup EqD(a.ext, r.ext) \cup EqD(ShowRef(x), r.s) \cup EqD(WithSchema(x), r.top)
    [] op = "path.make" ->
         LET n == IF a.f = "" THEN NONODE ELSE ParseFilter(a.f)
         IN IF ~PathMade(RefA(a.attr), n, RefA(a.sub)) THEN EqD(TRUE, r.refused)
            ELSE IF r.refused THEN {<<"refused">>} ELSE EqD(PathV(RefA(a.attr), n, RefA(a.sub)), r.v)
    [] op = "attr.make" ->
         IF ~AttrMade(a.t, a.refs) THEN EqD(TRUE, r.refused)
         ELSE IF r.refused THEN {<<"refused">>} ELSE EqD(AttrRefs(a.t, a.refs), r.refs)
    [] op = "op.make" ->
         IF ~Comparable0(a.op, a.v) THEN EqD(TRUE, r.refused)
         ELSE IF r.refused THEN {<<"refused">>} ELSE EqD(Node(a.op, ShowRef(RefA(a.ref)), a.v, <<>>), r.v)
    [] op = "conf.make" ->
         IF ~ConfMade(a) THEN EqD(TRUE, r.refused)
         ELSE IF r.refused THEN {<<"refused">>} ELSE EqD(a, r.v)
    [] op = "cont.key" -> EqD(~IsRef(ParseRef(a.key)), r.refused) \cup EqD(TRUE, r.kept)
    [] op = "kinds.eq" -> EqD(a.x = a.y \/ {a.x, a.y} = {"object", "dict"}, r.eq) \cup EqD(~r.eq, r.ne)
    [] op = "attr.eq" -> EqD(SameDef(a.x, a.y), r.eq)
    [] op \in RequestOps -> Req(Outcome(op, a), r)
    [] op \in ResponseOps -> Resp(Outcome(op, a), r)
    [] op = "serve" -> ServeD(a, r, LAMBDA q : Resp(Answered(a.kind, Schs(a.schemas), a.status, a.body, a.headers, q), r))
    [] op = "answer" -> ServeD(a, r, LAMBDA q : AnswerD(a, r, q))
    [] op = "rel" -> Released(a.op, a.a, r)
    [] op = "details" ->
         LET S == IF "schema" \in DOMAIN a.a THEN Sch(a.a.schema) ELSE UserS
             d == IF a.op = "attr" THEN Lookup(S, RefA(a.a.ref)).d ELSE IdA
         IN UNION { DetailD(a.op, a.a, S, d, r.iss[i]) : i \in 1..Len(r.iss) }
    [] op = "query.pair" -> PairD(r)
    [] op = "schema.def" -> SchemaDefD(Sch(a.schema), r)
    [] op = "schema.doc" -> SchemaDocD(Sch(a.schema), r.v)
                            \cup (IF r.iss = <<>> THEN {} ELSE {<<"document not accepted", r.iss>>})
    [] op = "ext.doc" ->
         LET e == Sch(a.schema).exts[a.e]
             at == Get(r.v, Sub1("attributes"))
         IN EqD("D", r.d) \cup EqD(Str(e.urn), Get(r.v, Sub1("id"))) \cup EqD(Str("E" \o ToString(a.e)), Get(r.v, Sub1("name")))
            \cup (IF ~IsList(at) \/ Len(at.l) # Len(e.attrs) THEN {<<"document", "attributes">>}
                  ELSE UNION { DocD(e.attrs[i], at.l[i], <<>>) : i \in 1..Len(e.attrs) })
    [] op = "ready.error" ->
         LET f(n) == Get(r.v, Sub1(n))
         IN EqD(Str(ReadyErrors[a.name]), f("scimType")) \cup EqD(Str("400"), f("status"))
            \cup (IF IsStr(f("detail")) /\ f("detail").s # "" THEN {} ELSE {<<"no text">>})
            \cup Resp(ErrorDump(ErrorS, 400, Obj(<<<<"schemas", List(<<Str(ErrorS.urn)>>)>>>> \o r.v.m), NULL), [body |-> r.out, headers |-> NULL, iss |-> r.iss])
            \cup (IF r.iss = <<>> THEN {} ELSE {<<"not accepted", r.iss>>})
    [] op = "seq" ->
         UNION { LET c == a.calls[i]
                     q == r.calls[i]
                     f(ok, what) == IF ok THEN {} ELSE {<<"call", i, c.op, what>>}
                 IN f(q.fresh = q.r, "differs from a fresh validator's outcome")
                    \cup f(q.again = q.r, "differs when repeated")
                    \cup f(q.end = q.r, "differs after further calls")
                    \cup f(q.before = q.after, "modified its input")
                    \cup UNION { f(a.calls[j] # c \/ r.calls[j].r = q.r, "differs from call " \o ToString(j)) : j \in 1..(i - 1) }
                 : i \in 1..Len(a.calls) }

---------------------------------------------------------------------------
(* names used nowhere else: TLC takes a bound name that equals a variable's *)
(* for that variable when it looks for constant definitions to evaluate once *)
VARIABLES at_, bad_
Init == at_ = 1 /\ bad_ = 0
Next == /\ at_ <= N
        /\ LET d == Check(Ev(at_))
           IN /\ IF d = {} THEN TRUE ELSE PrintT(ToJson([mismatch |-> Ev(at_).id, clauses |-> d]))
              /\ bad_' = bad_ + (IF d = {} THEN 0 ELSE 1)
        /\ at_' = at_ + 1
        /\ IF at_ = N THEN PrintT(ToJson([done |-> N, bad |-> bad_'])) ELSE TRUE
Spec == Init /\ [][Next]_<<at_, bad_>>
=============================================================================

------------------------------- MODULE Schemas ------------------------------
(* Attribute definitions, schemas, and what becomes of the values and the   *)
(* resources of a request (dir = "parse") or a response (dir = "dump").     *)
(*                                                                          *)
(* attribute: [n, t, mv, req, ce, hc, canon, vc, mut, ret, uniq, iss, post, *)
(*   subs] name, type, multi-valued, required, case-exact, has canonical    *)
(*   values (canon), enforced (vc), mutability, returned, uniqueness,       *)
(*   issuer, name of its value processor, sub-attributes                    *)
(* schema: [urn, name, plural, res, attrs, exts]; exts: [urn, attrs]; res:  *)
(*   a resource schema (its meta.resourceType is checked in responses)      *)
EXTENDS Filters

AttrOf(d, u, x) == [a |-> d, urn |-> u, ext |-> x]     \* attribute bound to a schema

(* the top-level attributes with the schema each belongs to, core first *)
RECURSIVE ExtTops(_, _)
ExtTops(exts, i) == IF i > Len(exts) THEN <<>>
  ELSE [j \in 1..Len(exts[i].attrs) |-> AttrOf(exts[i].attrs[j], exts[i].urn, TRUE)]
       \o ExtTops(exts, i + 1)
Tops(S) == [j \in 1..Len(S.attrs) |-> AttrOf(S.attrs[j], S.urn, FALSE)] \o ExtTops(S.exts, 1)
TopRef(x) == [schema |-> x.urn, attr |-> x.a.n, sub |-> "", ext |-> x.ext]
SubRef(x, s) == [schema |-> x.urn, attr |-> x.a.n, sub |-> s.n, ext |-> x.ext]
LocOf(r) == (IF r.ext THEN <<r.schema>> ELSE <<>>) \o <<r.attr>>
            \o (IF r.sub = "" THEN <<>> ELSE <<r.sub>>)
KnownUrns(S) == <<S.urn>> \o [i \in 1..Len(S.exts) |-> S.exts[i].urn]

(* the definition a reference names: [f, top, d]; d is the attribute or the *)
(* sub-attribute, top the top-level attribute                               *)
NODEF == [f |-> FALSE]
Lookup(S, r) ==
  LET T == Tops(S)
      hit(i) == /\ TopEq(TopRef(T[i]), r)
                /\ r.sub = "" \/ \E j \in 1..Len(T[i].a.subs) : SameText(T[i].a.subs[j].n, r.sub)
      H == { i \in 1..Len(T) : hit(i) }
      i == CHOOSE x \in H : \A y \in H : x <= y
      j == CHOOSE x \in 1..Len(T[i].a.subs) : SameText(T[i].a.subs[x].n, r.sub)
  IN IF H = {} THEN NODEF
     ELSE [f |-> TRUE, top |-> T[i], d |-> IF r.sub = "" THEN T[i].a ELSE T[i].a.subs[j],
           r |-> IF r.sub = "" THEN TopRef(T[i]) ELSE SubRef(T[i], T[i].a.subs[j])]

(* a schema composed with an extension: refused (and nothing changes) when  *)
(* it knows that identifier already                                         *)
Composed(S, x) == \E i \in 1..Len(KnownUrns(S)) : SameText(KnownUrns(S)[i], x.urn)
Compose(S, x) == IF Composed(S, x) THEN S ELSE [S EXCEPT !.exts = Append(@, x)]

---------------------------------------------------------------------------
Mark1(dir) == IF dir = "parse" THEN "<1" ELSE ">1"
Mark2(dir) == IF dir = "parse" THEN "<2" ELSE ">2"
(* processors of a single accepted value *)
Post(p, v, dir) ==
  CASE p = "" -> Ok(v)
    [] p = "noBulkId" -> IF ContainsText(v.s, "bulkId") THEN Bad(7) ELSE Ok(v)
    [] p = "op" -> IF dir = "parse" THEN Ok(Str(Lower(v.s))) ELSE Ok(v)
    [] p = "method" -> Ok(Str(Upper(v.s)))
    [] p = "path" -> IF dir = "dump" THEN Ok(v)
                     ELSE LET q == ParsePath(v.s) IN IF q.k = "inv" THEN Bad(0) ELSE Ok(q)
    [] p = "filter" -> IF dir = "dump" THEN Ok(v)
                       ELSE LET n == ParseFilter(v.s)
                            IN IF IsNode(n) THEN Ok(FilterV(n)) ELSE Bad(0)
    [] p = "rep" -> IF dir = "dump" THEN Ok(v)
                    ELSE LET r == ParseRef(v.s) IN IF IsRef(r) THEN Ok(RepV(r)) ELSE Bad(111)
    [] p = "reps" ->
         IF dir = "dump" THEN Ok(v)
         ELSE [v |-> List([i \in 1..Len(v.l) |->
                        LET r == ParseRef(v.l[i].s) IN IF IsRef(r) THEN RepV(r) ELSE INV]),
               i |-> { Iss(<<Idx(i)>>, 111, TRUE) :
                        i \in { j \in 1..Len(v.l) : ~IsRef(ParseRef(v.l[j].s)) } }]
    [] p = "opStatus" -> IF dir = "parse" \/ IsIntText(v.s) THEN Ok(v) ELSE Bad(1)
    [] p = "errorStatus" ->
         IF dir = "dump" THEN Ok(v)
         ELSE IF ~IsIntText(v.s) THEN Bad(12)
         ELSE [v |-> IntV(IntText(v.s)),
               i |-> IF IntText(v.s) \in 300..599 THEN {} ELSE Warn(<<>>, 12)]
    (* processors of the schema X1: two that leave a mark, one that refuses, *)
    (* one that only complains                                               *)
    [] p = "mark" -> Ok(Str(v.s \o Mark1(dir) \o Mark2(dir)))
    [] p = "marks" -> Ok(List(v.l \o <<Str(Mark1(dir)), Str(Mark2(dir))>>))
    [] p = "noX" -> IF ContainsText(v.s, "x") THEN Bad(1) ELSE Ok(v)
    [] p = "warnX" -> [v |-> v, i |-> IF ContainsText(v.s, "x") THEN Warn(<<>>, 1) ELSE {}]
    [] OTHER -> Ok(v)

CanonIn(a, v) ==
  v.k = "inv" \/ ~a.hc \/
  ( v.k = "str" /\
    \E i \in 1..Len(a.canon) : IF a.ce THEN a.canon[i] = v.s ELSE SameText(a.canon[i], v.s) )
OneVal(a, v, dir) ==
  LET x == TypeVal(a.t, v, dir)
  IN IF a.vc /\ ~CanonIn(a, x.v) THEN [v |-> INV, i |-> x.i \cup Stop(<<>>, 14)] ELSE x

(* the value of an attribute without its sub-attributes *)
Simple(a, v, dir) ==
  IF v.k = "null" THEN Ok(NULL)
  ELSE IF a.mv /\ ~IsList(v) THEN Bad(2)
  ELSE
    LET xs == IF a.mv THEN TLCEval([i \in 1..Len(v.l) |-> OneVal(a, v.l[i], dir)]) ELSE <<>>
        x == IF a.mv THEN [v |-> List([i \in 1..Len(xs) |-> xs[i].v]),
                           i |-> UNION { At(<<Idx(i)>>, xs[i].i) : i \in 1..Len(xs) }]
             ELSE OneVal(a, v, dir)
    IN IF x.i = {} /\ a.post # "" THEN Post(a.post, x.v, dir) ELSE x

(* one object of a complex attribute *)
RECURSIVE SubVals(_, _, _, _, _, _)
SubVals(a, o, dir, j, acc, iss) ==
  IF j > Len(a.subs) THEN [v |-> acc, i |-> iss]
  ELSE LET s == a.subs[j]
           v == Get(o, Sub1(s.n))
           x == Simple(s, v, dir)
       IN IF v.k = "miss" THEN SubVals(a, o, dir, j + 1, acc, iss)
          ELSE SubVals(a, o, dir, j + 1, Set(acc, Sub1(s.n), x.v), iss \cup At(<<s.n>>, x.i))
ItemVal(a, v, dir) == SubVals(a, IF IsObj(v) THEN v ELSE EMPTY, dir, 1, EMPTY, {})

IsPrimary(o) == Get(o, Sub1("primary")) = TRUEV
OnePrimary(items) ==
  IF Cardinality({ i \in 1..Len(items) : IsPrimary(items[i]) }) > 1 THEN Warn(<<>>, 9) ELSE {}

(* checks of a whole complex attribute (made when nothing else is wrong)    *)
RECURSIVE AttrVal(_, _, _), DocAttr(_, _, _)
PatchOpsCheck(items) ==
  UNION { LET o == items[i]
              op == Get(o, Sub1("op"))
              path == Get(o, Sub1("path"))
              val == Get(o, Sub1("value"))
          IN IF op = Str("remove") /\ Unset(path) THEN Stop(<<Idx(i), "path">>, 15)
             ELSE IF op = Str("add") THEN
               (IF Unset(val) THEN Stop(<<Idx(i), "value">>, 15) ELSE {})
               \cup (IF path.k = "path" /\ IsNode(path.f) /\ path.sub.attr = ""
                     THEN Stop(<<Idx(i), "path">>, 305) ELSE {})
             ELSE {} : i \in 1..Len(items) }
PatchOpsFix(o) == IF Get(o, Sub1("op")) = Str("remove") /\ Unset(Get(o, Sub1("path")))
                  THEN Del(o, Sub1("value")) ELSE o

(* bulk paths *)
SlashWord(p) == Len(p) > 1 /\ SubSeq(p, 1, 1) = "/" /\ AllIn(From(p, 2), WordChars)
SlashObject(p) == LET i == FindFrom(p, "/", 2)
                  IN i > 2 /\ SlashWord(SubSeq(p, 1, i - 1))
BulkReqCheck(items) ==
  UNION { LET o == items[i]
              m == Get(o, Sub1("method"))
              meth == IF IsStr(m) THEN m.s ELSE ""
              bid == Get(o, Sub1("bulkId"))
              path == Get(o, Sub1("path"))
              data == Get(o, Sub1("data"))
          IN At(<<Idx(i)>>,
               (IF Unset(m) THEN Stop(<<"method">>, 15) ELSE {})
               \cup (IF meth = "POST" /\ Unset(bid) THEN Stop(<<"bulkId">>, 15) ELSE {})
               \cup (IF Unset(path) THEN Stop(<<"path">>, 15)
                     ELSE IF meth = "POST" /\ ~SlashWord(path.s) THEN Stop(<<"path">>, 34)
                     ELSE IF meth \in {"GET", "PATCH", "PUT", "DELETE"} /\ ~SlashObject(path.s)
                          THEN Stop(<<"path">>, 35) ELSE {})
               \cup (IF meth \in {"POST", "PUT", "PATCH"} /\ Unset(data)
                     THEN Stop(<<"data">>, 15) ELSE {}))
          : i \in 1..Len(items) }
BulkReqFix(o) == LET m == Get(o, Sub1("method"))
                 IN IF IsStr(m) /\ m.s \in {"GET", "DELETE"} THEN Del(o, Sub1("data")) ELSE o
BulkRespCheck(items) ==
  UNION { LET o == items[i]
              m == Get(o, Sub1("method"))
              meth == IF IsStr(m) THEN m.s ELSE ""
              bid == Get(o, Sub1("bulkId"))
              st == Get(o, Sub1("status"))
              loc == Get(o, Sub1("location"))
              resp == Get(o, Sub1("response"))
          IN At(<<Idx(i)>>,
               (IF Unset(m) THEN Stop(<<"method">>, 15) ELSE {})
               \cup (IF meth = "POST" /\ Unset(bid) THEN Stop(<<"bulkId">>, 15) ELSE {})
               \cup (IF Unset(st) THEN Stop(<<"status">>, 15)
                     ELSE (IF Unset(loc) /\ meth # "" /\ (meth # "POST" \/ IntText(st.s) < 300)
                           THEN Stop(<<"location">>, 15) ELSE {})
                          \cup (IF Unset(resp) /\ IntText(st.s) >= 300
                                THEN Stop(<<"response">>, 15) ELSE {})))
          : i \in 1..Len(items) }

(* attributes of a schema document: sub-attributes of complex ones only,    *)
(* and caseExact stated for texts only                                      *)
DocAttr(a, o, dir) ==
  LET t == Get(o, Sub1("type"))
      subs == Get(o, Sub1("subAttributes"))
      isCx == t = Str("complex")
      isStr == t = Str("string")
      d == AttrVal(a, subs, dir)
      o1 == IF Unset(subs) THEN o
            ELSE IF ~isCx THEN Del(o, Sub1("subAttributes"))
            ELSE Set(o, Sub1("subAttributes"), d.v)
      i1 == IF ~Unset(subs) /\ isCx THEN At(<<"subAttributes">>, d.i) ELSE {}
  IN IF isStr
     THEN [v |-> o1, i |-> i1 \cup (IF Unset(Get(o, Sub1("caseExact")))
                                    THEN Stop(<<"caseExact">>, 15) ELSE {})]
     ELSE [v |-> Del(o1, Sub1("caseExact")), i |-> i1]

CxMark(o, dir) == LET note == Get(o, Sub1("note"))
                  IN Set(o, Sub1("note"), Str((IF IsStr(note) THEN note.s ELSE "") \o Mark1(dir) \o Mark2(dir)))
CxPost(a, items, dir) ==
  CASE a.post = "patchOps" /\ dir = "parse" ->
         [v |-> [i \in 1..Len(items) |-> PatchOpsFix(items[i])], i |-> PatchOpsCheck(items)]
    [] a.post = "bulkReq" /\ dir = "parse" ->
         [v |-> [i \in 1..Len(items) |-> BulkReqFix(items[i])], i |-> BulkReqCheck(items)]
    [] a.post = "bulkResp" /\ dir = "dump" ->
         [v |-> items, i |-> BulkRespCheck(items)]
    [] a.post = "docAttrs" /\ dir = "dump" ->
         LET xs == TLCEval([i \in 1..Len(items) |-> DocAttr(a, items[i], dir)])
         IN [v |-> [i \in 1..Len(items) |-> xs[i].v],
             i |-> UNION { At(<<Idx(i)>>, xs[i].i) : i \in 1..Len(items) }]
    [] a.post = "cxMark" -> [v |-> [i \in 1..Len(items) |-> CxMark(items[i], dir)], i |-> {}]
    [] OTHER -> [v |-> items, i |-> {}]
CxPost1(a, o, dir) == IF a.post = "cxMark" THEN CxMark(o, dir) ELSE o
(* a processor of a complex attribute's value before its sub-attributes are *)
(* looked at: gives what has no value one                                    *)
CxPre1(o) == IF IsObj(o) /\ Get(o, Sub1("value")).k = "miss" THEN Set(o, Sub1("value"), Str("pre")) ELSE o
CxPre(a, v) == IF a.post # "cxPre" THEN v
               ELSE IF a.mv THEN List([i \in 1..Len(v.l) |-> CxPre1(v.l[i])]) ELSE CxPre1(v)

(* the value of any attribute *)
AttrVal(a, v, dir) ==
  IF a.t # "complex" THEN Simple(a, v, dir)
  ELSE
    LET base == Simple([a EXCEPT !.post = ""], v, dir)
    IN IF base.v.k \in {"inv", "null"} THEN base
       ELSE IF a.mv THEN
         LET pre == IF base.i = {} THEN CxPre(a, v) ELSE v
             xs == TLCEval([i \in 1..Len(v.l) |-> ItemVal(a, pre.l[i], dir)])
             items == TLCEval([i \in 1..Len(xs) |-> xs[i].v])
             iss == base.i \cup UNION { At(<<Idx(i)>>, xs[i].i) : i \in 1..Len(xs) }
             p == CxPost(a, items, dir)
         IN IF iss # {} THEN [v |-> List(items), i |-> iss]
            ELSE [v |-> List(p.v), i |-> p.i \cup OnePrimary(p.v)]
       ELSE LET x == ItemVal(a, CxPre(a, v), dir)
            IN IF x.i # {} THEN x ELSE Ok(CxPost1(a, x.v, dir))

---------------------------------------------------------------------------
(* resources *)
SchemasCheck(o, urns, S) ==
  LET low == { Lower(urns[i].s) : i \in 1..Len(urns) }
      known == { Lower(u) : u \in ToSet(KnownUrns(S)) }
      main == Lower(S.urn)
  IN At(<<"schemas">>,
       (IF low \subseteq known THEN {} ELSE Warn(<<>>, 27))
       \cup (IF main \in low THEN {} ELSE Warn(<<>>, 28))
       \cup (IF \E i \in 1..Len(o.m) : Lower(o.m[i][1]) \in known \ low THEN Warn(<<>>, 29) ELSE {}))
MissingExts(o, urns, S) ==
  LET low == { Lower(urns[i].s) : i \in 1..Len(urns) }
      known == { Lower(u) : u \in ToSet(KnownUrns(S)) }
  IN Cardinality({ i \in 1..Len(o.m) : Lower(o.m[i][1]) \in known \ low })

RECURSIVE FromTops(_, _, _, _, _, _)
FromTops(T, o, dir, j, acc, iss) ==
  IF j > Len(T) THEN [v |-> acc, i |-> iss]
  ELSE LET x == T[j]
           r == TopRef(x)
           v == Get(o, r)
           y == AttrVal(x.a, v, dir)
       IN IF v.k = "miss" THEN FromTops(T, o, dir, j + 1, acc, iss)
          ELSE FromTops(T, o, dir, j + 1, Set(acc, r, y.v), iss \cup At(LocOf(r), y.i))

Process(S, data, dir) ==
  IF data.k = "null" THEN Bad(15)
  ELSE IF ~IsObj(data) THEN Bad(2)
  ELSE
    LET x == FromTops(Tops(S), Wrap(data), dir, 1, EMPTY, {})
        urns == Get(x.v, Ref("", "schemas", ""))
        i1 == x.i \cup (IF ~HasAt(x.i, <<"schemas">>) /\ IsList(urns) /\ urns.l # <<>>
                        THEN SchemasCheck(x.v, urns.l, S) ELSE {})
        rt == Get(x.v, Ref("", "meta", "resourceType"))
        i2 == IF S.res /\ dir = "dump" /\ Proceed(i1, <<"meta", "resourceType">>)
                 /\ rt.k # "miss" /\ rt # Str(S.name)
              THEN Warn(<<"meta", "resourceType">>, 17) ELSE {}
    IN [v |-> x.v, i |-> i1 \cup i2]

---------------------------------------------------------------------------
(* presence: which attributes must, and which must not, be there.           *)
(* rule: [reps, inc, ign] references, "yes" (only these) / "no" (not these) *)
(* / "none", references exempt from being required                          *)
NoRule == [reps |-> <<>>, inc |-> "none", ign |-> <<>>]
Named(rule, r) == RefIn(r, rule.reps)
Related(rule, r) ==
  \E i \in 1..Len(rule.reps) :
    LET q == rule.reps[i] IN TopEq(r, q) /\ (r.sub = "" \/ q.sub = "")
Presence1(rule, d, r, v, dir) ==
  IF ~Blank(v) THEN
    IF dir # "RESPONSE" THEN {}
    ELSE IF d.ret = "never" THEN Warn(<<>>, 19)
    ELSE IF d.ret # "always" /\ ( \/ (rule.inc = "no" /\ Named(rule, r))
                               \/ (rule.inc = "yes" /\ ~Named(rule, r) /\ ~Related(rule, r)) )
         THEN Warn(<<>>, 19)
    ELSE {}
  ELSE IF d.req /\ ~RefIn(r, rule.ign)
          /\ ( rule.inc # "yes" \/ Named(rule, r) \/ (dir = "RESPONSE" /\ d.ret = "always") )
       THEN Stop(<<>>, 15) ELSE {}
PresenceTop(rule, x, o, dir) ==
  LET r == TopRef(x)
      v == Get(o, r)
      subs == x.a.subs
  IN (IF v.k = "inv" THEN {} ELSE At(LocOf(r), Presence1(rule, x.a, r, v, dir)))
     \cup
     ( IF subs = <<>> \/ Absent(v) THEN {}
       ELSE UNION { LET sr == SubRef(x, subs[j])
                    IN IF x.a.mv THEN
                         UNION { IF ~IsObj(v.l[i]) THEN {}
                                 ELSE LET w == Get(v.l[i], Sub1(subs[j].n))
                                      IN IF w.k = "inv" THEN {}
                                         ELSE At(LocOf(r) \o <<Idx(i), subs[j].n>>,
                                                 Presence1(rule, subs[j], sr, w, dir))
                                 : i \in 1..Len(v.l) }
                       ELSE LET w == Get(o, sr)
                            IN IF w.k = "inv" THEN {}
                               ELSE At(LocOf(sr), Presence1(rule, subs[j], sr, w, dir))
                    : j \in 1..Len(subs) } )
PresenceIn(rule, T, o, dir) == UNION { PresenceTop(rule, T[i], o, dir) : i \in 1..Len(T) }
Presence(rule, S, o, dir) == PresenceIn(rule, Tops(S), o, dir)
=============================================================================

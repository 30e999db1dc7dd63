------------------------------- MODULE MC_List ------------------------------
(* List responses: counters against contents and query, which schema a      *)
(* listed resource is judged by, and filter, order and requested attributes *)
(* over lists of up to three resources.                                     *)
EXTENDS MC
VARIABLES part_, case_

SH == "urn:verif:small:ext:shared"
Item(n, i, ps) == Pairs(<<<<"schemas", Texts0(<<Ur(n)>>)>>, <<"id", Str(ToString(i))>>>> \o ps)
BodyV(total, start, ipp, res) == Pairs(<<<<"schemas", Texts0(<<ListS.urn>>)>>, <<"totalResults", total>>, <<"startIndex", start>>, <<"itemsPerPage", ipp>>, <<"Resources", res>>>>)
Call(k, ss, st, b, start, count, f, s, c) ==
  [kind |-> k, schemas |-> ss, status |-> st, body |-> b, headers |-> NULL, start |-> start, count |-> count, f |-> f, s |-> s, c |-> c]

(* counters *)
Plain1(n) == List([i \in 1..n |-> Item("L1", i, One("name", Str("a")))])
Counters(n) ==
  { Call("list", <<"L1">>, 200, BodyV(t, si, ip, Plain1(n)), start, count, NULL, NULL, NULL) :
    t \in {IntV(0), IntV(n), IntV(n + 1), IntV(9), NULL, MISS, Str("1")}, si \in {MISS, IntV(0), IntV(1), IntV(2), IntV(6), IntV(-1), NULL}, ip \in {MISS, NULL, IntV(n), IntV(n + 1), Str("1")},
    start \in {-1, 0, 1, 2, 9}, count \in {-2, -1, 0, 1, 2, 5} }
  \cup { Call("list", <<"L1">>, 200, BodyV(IntV(n), MISS, MISS, r), 1, -1, NULL, NULL, NULL) : r \in {MISS, NULL, EMPTY, Str("x")} }
  \cup { Call("list", <<"L1">>, st, BodyV(IntV(n), MISS, MISS, Plain1(n)), 1, -1, NULL, NULL, NULL) : st \in {200, 201, 204, 404} }

(* inference *)
Ids == {Ur("L1"), Swap(Ur("L2")), SH, "urn:x"}
Lists == { Texts0(l) : l \in UpTo(Ids, 3) } \cup {MISS, NULL, Str(Ur("L1")), List(<<IntV(1)>>), List(<<Str(Ur("L1")), NULL>>)}
Allowed == {<<"L1">>, <<"L1", "L2">>, <<"L2", "L1">>, <<"D1", "L2">>, <<"L1", "D1", "L2">>}
Exts == {<<>>, One(SH, Obj(One("team", Str("t"))))}
One1(l, x) == Pairs(<<<<"schemas", l>>, <<"id", Str("1")>>, <<"name", Str("a")>>, <<"only", Str("o")>>>> \o x)
Inference(a) ==
  { Call(k, a, 200, BodyV(IntV(1), MISS, MISS, List(<<One1(l, x)>>)), 1, -1, NULL, NULL, NULL) : k \in {"root", "search"}, l \in Lists, x \in Exts }
  \cup { Call("root", a, 200, BodyV(IntV(2), MISS, MISS, List(<<Item("L2", 1, <<>>), x>>)), 1, -1, NULL, NULL, NULL) : x \in {NULL, Str("x"), EMPTY, List(<<>>), Item("L1", 2, One("rank", Str("x")))} }

(* contents *)
Mails(v) == One("mails", List(<<Pairs(<<<<"value", Str(v)>>, <<"primary", BoolV(TRUE)>>>>)>>))
Kinds1 == {<<"L1", <<>>>>, <<"L1", One("name", Str("a"))>>, <<"L2", One("name", Str("B"))>>, <<"L1", One("name", Str("c")) \o One("rank", IntV(2))>>, <<"L2", One("rank", IntV(1)) \o One("only", Str("o"))>>,
          <<"L1", One("pin", Str("p"))>>, <<"L1", Mails("z") \o One(SH, Obj(One("team", Str("t"))))>>}
ItemK(k, i) == LET o == Item(k[1], i, k[2])
               IN IF \E j \in 1..Len(k[2]) : k[2][j][1] = SH THEN Obj(<<<<"schemas", Texts0(<<Ur(k[1]), SH>>)>>>> \o Tail(o.m)) ELSE o
Fs == {NULL, Str("name pr"), Str("name eq \"B\" or rank gt 1"), Str("not (name eq \"a\")"), Str("rank lt 2")}
SorterR(r, asc) == SorterV(r, asc)
Ss == {NULL} \cup { SorterR(Ref("", n, ""), asc) : n \in {"name", "RANK"}, asc \in BOOLEAN }
Cs == {NULL, CheckerV(<<[schema |-> "", attr |-> "name", sub |-> ""]>>, "yes"), CheckerV(<<[schema |-> "", attr |-> "rank", sub |-> ""]>>, "no")}
Contents(q) ==
  { Call(IF Len(l) = 2 THEN "search" ELSE "root", <<"L1", "L2">>, 200, BodyV(IntV(Len(l)), MISS, MISS, List([i \in 1..Len(l) |-> ItemK(l[i], i)])), 1, -1, q[1], q[2], q[3]) :
    l \in UpTo(Kinds1, IF Deep THEN 4 ELSE 3) }

Qs == { <<f, s, c>> \in Fs \X Ss \X Cs : Deep \/ (f = NULL /\ c = NULL) \/ (s = NULL /\ (c = NULL \/ f = NULL)) }
Init == /\ part_ \in { <<"count", n>> : n \in 0..2 } \cup { <<"infer", a>> : a \in Allowed } \cup { <<"all", q>> : q \in Qs }
        /\ case_ = NONE
Next == /\ case_ = NONE /\ UNCHANGED part_
        /\ case_' \in (CASE part_[1] = "count" -> Counters(part_[2]) [] part_[1] = "infer" -> Inference(part_[2]) [] OTHER -> Contents(part_[2]))
        /\ Emit("list.dump", case_')
Spec == Init /\ [][Next]_<<part_, case_>>

FilterOf(f) == IF f.k = "str" THEN FilterV(ParseFilter(f.s)) ELSE f
Run(a) == ListDump(ListS, [i \in 1..Len(a.schemas) |-> SmallS[a.schemas[i]]], a.status, a.body, a.headers,
                   [start |-> a.start, count |-> a.count, f |-> FilterOf(a.f), s |-> a.s, c |-> a.c])
Laws == case_ # NONE =>
  LET a == case_
      x == TLCEval(Run(a))
      o == x.body
      res == LET r == Get(o, Sub1("Resources")) IN IF IsList(r) THEN r.l ELSE <<>>
      n == Len(res)
      num(k) == Get(o, Sub1(k)).i
      has(k) == Get(o, Sub1(k)).k = "int"
      codes == { y.code : y \in x.i }
  IN /\ (o.k = "null") = (x.i # {})
     \* what is released is consistent
     /\ (x.i = {} => /\ a.status = 200 /\ has("totalResults") /\ n <= num("totalResults")
                     /\ (a.count = -1 => n = num("totalResults")) /\ (a.count # -1 => n <= AtLeast(0, a.count))
                     /\ (has("itemsPerPage") => num("itemsPerPage") = n)
                     /\ (has("startIndex") => num("startIndex") <= AtLeast(1, a.start))
                     /\ (a.count > 0 /\ n < num("totalResults") => has("startIndex") /\ has("itemsPerPage")))
     \* every resource was judged by one of the allowed schemas, alone
     /\ (part_[1] = "infer" /\ Len(a.schemas) > 1 /\ x.i = {} =>
           \A i \in 1..n : \E j \in 1..Len(a.schemas) :
              LET S == SmallS[a.schemas[j]] IN Process(S, Get(a.body, Sub1("Resources")).l[i], "dump") = [v |-> res[i], i |-> {}])
     \* fitting, in order, and with nothing unrequested
     /\ (part_[1] = "all" =>
           LET q == part_[2]
               raw == Get(a.body, Sub1("Resources")).l
               S(i) == IF raw[i].m[1][2].l[1] = Str(Ur("L1")) THEN L1S ELSE L2S
               fits == q[1].k = "null" \/ \A i \in 1..Len(raw) : Match(ParseFilter(q[1].s), raw[i], S(i), FALSE) = "P"
               pins == \E i \in 1..Len(raw) : Get(raw[i], Sub1("pin")).k # "miss"
               r == IF q[2].k = "null" THEN NOREF ELSE Ref(q[2].rep.schema, q[2].rep.attr, q[2].rep.sub)
               keys == [i \in 1..Len(raw) |-> SortKey(r, raw[i], S(i))]
               ordered == q[2].k = "null" \/ \A i \in 1..(Len(raw) - 1) : ~(IF q[2].asc THEN KeyLt(keys[i + 1], keys[i]) ELSE KeyLt(keys[i], keys[i + 1]))
               listed == q[3].k = "null" \/ \A i \in 1..Len(raw) :
                           IF q[3].inc = "no" THEN Blank(Get(raw[i], Sub1("rank")))
                           ELSE \A w \in {"rank", "only", "mails"} : Blank(Get(raw[i], Sub1(w)))
               shared == \E i \in 1..Len(raw) : q[3].k # "null" /\ q[3].inc = "yes" /\ Get(raw[i], ExtRef(SH, "team", "")).k # "miss"
           IN (x.i = {}) = (fits /\ ~pins /\ ordered /\ listed /\ ~shared))
=============================================================================

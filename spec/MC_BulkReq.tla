----------------------------- MODULE MC_BulkReq -----------------------------
(* Bulk requests: one operation of every method, path, identifier and data, *)
(* operations together, and the limit on their number.                      *)
EXTENDS MC
VARIABLES part_, case_

Al == <<"L1", "K1">>
Op(m, p, b, v, d) == Pairs(<<<<"method", m>>, <<"path", p>>, <<"bulkId", b>>, <<"version", v>>, <<"data", d>>>>)
BodyV(ops) == Obj(<<<<"schemas", Texts0(<<BulkReqS.urn>>)>>, <<"Operations", List(ops)>>>>)
Call(max, b) == [schemas |-> Al, max |-> max, body |-> b, qs |-> NULL, headers |-> NULL]

Methods == {Str("POST"), Str("PUT"), Str("PATCH"), Str("DELETE"), Str("GET"), Str("post"), Str("HEAD"), Str(""), MISS, NULL, IntV(1)}
Paths == {Str("/Leas"), Str("/Leas/1"), Str("/Muts"), Str("/Muts/1"), Str("/Nope"), Str("/Nope/1"), Str("Leas"), Str("/Leas/"), Str("/Leas/1/2"),
          Str("/leas/1"), Str("/"), Str(""), MISS, NULL, IntV(1), Str("/Lea"), Str("/Leas/bulkId:q")}
Ids == {MISS, Str("q"), Str(""), NULL, IntV(1)}
Pat(ops) == Obj(<<<<"schemas", Texts0(<<PatchS.urn>>)>>, <<"Operations", List(ops)>>>>)
PatOp(op, path, v) == Pairs(<<<<"op", Str(op)>>, <<"path", path>>, <<"value", v>>>>)
DataL == {ResOf("L1", One("name", Str("a"))), ResOf("L1", One("rank", Str("x"))), ResOf("L1", One("id", Str("1")))}
DataK == {ResOf("K1", One("need", Str("n")) \o One("needs", Texts0(<<"a">>)) \o One("cxneed", Obj(One("need", Str("y"))))),
          ResOf("K1", One("ro", Str("r"))), ResOf("K1", One("rw", IntV(1)))}
DataP == {Pat(<<PatOp("add", Str("rw"), Str("a"))>>), Pat(<<PatOp("remove", Str("need"), MISS)>>), Pat(<<PatOp("replace", Str("ro"), Str("a"))>>),
          Pat(<<PatOp("add", Str("name"), Str("a")), PatOp("remove", Str("rank"), MISS)>>), Pat(<<PatOp("add", MISS, Obj(One("name", Str("a"))))>>),
          Pat(<<>>), Pat(<<PatOp("add", Str("nope"), Str("a"))>>)}
Odd == {MISS, NULL, EMPTY, Str("x"), List(<<>>), Obj(One("schemas", Texts0(<<Ur("L2")>>)))}
Datas == DataL \cup DataK \cup DataP \cup Odd

(* operations that stand for the rest when they occur together *)
Reps == {Op(Str("POST"), Str("/Leas"), Str("q"), MISS, ResOf("L1", One("name", Str("a")))),
         Op(Str("POST"), Str("/Leas"), MISS, MISS, ResOf("L1", One("name", Str("a")))),
         Op(Str("POST"), Str("/Muts"), Str("r"), MISS, ResOf("K1", One("rw", IntV(1)))),
         Op(Str("PUT"), Str("/Leas/1"), MISS, Str("v1"), ResOf("L1", One("name", Str("a")) \o One("id", Str("1")))),
         Op(Str("PUT"), Str("/Nope/1"), MISS, MISS, EMPTY),
         Op(Str("PATCH"), Str("/Muts/1"), MISS, MISS, Pat(<<PatOp("add", Str("rw"), Str("a"))>>)),
         Op(Str("PATCH"), Str("/Muts/1"), MISS, MISS, Pat(<<PatOp("replace", Str("ro"), Str("a"))>>)),
         Op(Str("DELETE"), Str("/Leas/1"), MISS, MISS, MISS), Op(Str("DELETE"), Str("/Leas"), MISS, MISS, MISS),
         Op(Str("GET"), Str("/Muts/1"), MISS, MISS, MISS), Op(MISS, Str("/Muts/1"), MISS, MISS, MISS)}
Few == {Op(Str("POST"), Str("/Leas"), Str("q"), MISS, ResOf("L1", One("name", Str("a")))), Op(Str("DELETE"), Str("/Leas/1"), MISS, MISS, MISS),
        Op(Str("DELETE"), Str("/Nope/1"), MISS, MISS, MISS)}
Shapes == {NULL, EMPTY, Str("x"), List(<<>>), Obj(One("Operations", List(<<>>))), Obj(One("schemas", Texts0(<<BulkReqS.urn>>)))}
          \cup { Obj(<<<<"schemas", s>>, <<"Operations", o>>>>) :
                 s \in {Texts0(<<BulkReqS.urn>>), Texts0(<<BulkRespS.urn>>), Texts0(<<Swap(BulkReqS.urn)>>), List(<<>>), NULL},
                 o \in {NULL, Str("x"), List(<<>>), EMPTY, List(<<NULL>>), List(<<Str("x")>>), List(<<EMPTY>>)} }
          \cup { Obj(<<<<"schemas", Texts0(<<BulkReqS.urn>>)>>, <<"failOnErrors", f>>, <<"operations", List(<<r>>)>>>>) : f \in {IntV(1), IntV(0), NULL, Str("1")}, r \in Few }

Bodies(p) ==
  CASE p[1] = "one" -> { BodyV(<<Op(p[2], q, b, MISS, d)>>) : q \in Paths, b \in Ids, d \in (IF Deep THEN Datas ELSE {EMPTY, ResOf("L1", One("name", Str("a"))), Pat(<<PatOp("add", Str("rw"), Str("a"))>>)}) }
    [] p[1] = "data" -> { BodyV(<<Op(p[2], q, b, v, d)>>) : q \in {Str("/Leas"), Str("/Muts/1"), Str("/Muts"), Str("/Leas/1"), Str("/Nope")}, b \in {MISS, Str("q")}, v \in {MISS, Str("v1"), IntV(1)}, d \in Datas }
    [] p[1] = "two" -> { BodyV(<<p[2], y>>) : y \in Reps }
    [] p[1] = "three" -> { BodyV(<<p[2], y, z>>) : y \in Reps, z \in Reps }
    [] p[1] = "max" -> { BodyV(l) : l \in UpTo(Few, 3) }
    [] p[1] = "shape" -> Shapes
Init == /\ part_ \in ({"one", "data"} \X Methods) \cup (({"two"} \cup (IF Deep THEN {"three"} ELSE {})) \X Reps) \cup ({"max"} \X {-1, 0, 1, 2, 3}) \cup {<<"shape", 0>>}
        /\ case_ = NONE
Lim == IF part_[1] = "max" THEN part_[2] ELSE -1
Next == /\ case_ = NONE /\ UNCHANGED part_
        /\ \E b \in Bodies(part_) : case_' = [b |-> b] /\ Emit("bulk.parse", Call(Lim, b))
Spec == Init /\ [][Next]_<<part_, case_>>

Run(b, max) == BulkParse(BulkReqS, PatchS, <<L1S, K1S>>, max, b, NULL, NULL)
OpsOf(b) == LET l == IF IsObj(b) THEN Get(b, Sub1("Operations")) ELSE NULL IN IF IsList(l) THEN l.l ELSE <<>>
Laws == case_ # NONE =>
  LET b == case_.b
      x == TLCEval(Run(b, Lim))
      in == OpsOf(b)
      out == IF x.body.k = "null" THEN <<>> ELSE OpsOf(x.body)
      alone == TLCEval([i \in 1..Len(in) |-> Run(BodyV(<<in[i]>>), -1)])
      moved(s, i) == { [y EXCEPT !.loc = <<"body", "Operations", Idx(i)>> \o SubSeq(y.loc, 4, Len(y.loc))] : y \in s }
  IN /\ (x.body.k = "null") = (x.i # {})
     \* every operation is judged by itself: what it yields in a sequence is what it yields alone
     /\ (part_[1] \in {"two", "three", "max"} /\ in # <<>> =>
           /\ x.i = UNION { moved(alone[i].i, i) : i \in 1..Len(in) } \cup (IF Lim # -1 /\ Len(in) > Lim THEN Warn(<<"body", "Operations">>, 37) ELSE {})
           /\ (x.i = {} => \A i \in 1..Len(in) : out[i] = OpsOf(alone[i].body)[1]))
     \* an operation that is released has a method, a path to a known resource and the data of its method
     /\ (x.i = {} => \A i \in 1..Len(out) :
           LET o == out[i] m == Get(o, Sub1("method")).s p == Get(o, Sub1("path")).s
               S == IF ContainsText(p, "/Leas") THEN L1S ELSE K1S
               d == Get(in[i], Sub1("data")) e == Get(o, Sub1("data"))
           IN /\ Len(out) = Len(in)
              /\ m \in {"GET", "POST", "PUT", "PATCH", "DELETE"}
              /\ (m = "POST") = (p \in {"/Leas", "/Muts"})
              /\ (m = "POST" => Get(o, Sub1("bulkId")).k = "str")
              /\ (m \in {"POST", "PUT", "PATCH"} => e.k # "miss")
              /\ (m = "POST" => [v |-> e, i |-> {}] = [v |-> PostParse(S, d, NULL, NULL).body, i |-> PostParse(S, d, NULL, NULL).i])
              /\ (m = "PUT" => [v |-> e, i |-> {}] = [v |-> PutParse(S, d, NULL, NULL).body, i |-> PutParse(S, d, NULL, NULL).i])
              /\ (m = "PATCH" => [v |-> e, i |-> {}] = [v |-> PatchReqParse(PatchS, S, d, NULL, NULL).body, i |-> PatchReqParse(PatchS, S, d, NULL, NULL).i]))
=============================================================================

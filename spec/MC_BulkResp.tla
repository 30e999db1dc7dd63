---------------------------- MODULE MC_BulkResp -----------------------------
(* Bulk responses: the result of every method with every status, location,  *)
(* version and response, results together, and the limit on failures.       *)
EXTENDS MC
VARIABLES part_, case_

Al == <<"L1", "K1">>
LA == "https://h/v2/Leas/1"
LB == "https://h/v2/Leas/2"
LK == "https://h/v2/Muts/1"
Rslt(m, b, l, v, s, r) == Pairs(<<<<"method", m>>, <<"bulkId", b>>, <<"location", l>>, <<"version", v>>, <<"status", s>>, <<"response", r>>>>)
BodyV(ops) == Obj(<<<<"schemas", Texts0(<<BulkRespS.urn>>)>>, <<"Operations", List(ops)>>>>)
Call(max, st, b) == [schemas |-> Al, max |-> max, status |-> st, body |-> b, headers |-> NULL]

Methods == {Str("POST"), Str("PUT"), Str("PATCH"), Str("DELETE"), Str("GET"), Str("put"), Str("HEAD"), MISS, NULL, IntV(1)}
Locs == {Str(LA), Str(LB), Str(LK), Str("https://h/v2/Nope/1"), Str("https://h/v2/Leas"), Str(""), MISS, NULL, IntV(1), Str("https://h/v2/leas/1")}
Vers == {MISS, Str("v1"), Str("v2"), Str(""), NULL}
Stats == {Str("200"), Str("201"), Str("204"), Str("300"), Str("404"), Str("299"), Str("x"), Str(""), MISS, NULL, IntV(200)}
MetaOf(l, v) == One("meta", Pairs(<<<<"location", l>>, <<"version", v>>>>))
Lea(l, v, ps) == ResOf("L1", One("id", Str("1")) \o MetaOf(l, v) \o ps)
Err(s) == Obj(<<<<"schemas", Texts0(<<ErrorS.urn>>)>>, <<"status", Str(s)>>>>)
Resps == {MISS, NULL, EMPTY, Str("x"), List(<<>>), Err("404"), Err("300"), Err("400"), Obj(One("status", Str("404"))),
          Lea(Str(LA), MISS, <<>>), Lea(Str(LB), MISS, <<>>), Lea(MISS, MISS, <<>>), Lea(Str(LA), Str("v1"), <<>>), Lea(Str(LA), Str("v2"), <<>>), Lea(Str(LB), Str("v2"), <<>>),
          Lea(Str(LA), MISS, One("pin", Str("p"))), Lea(Str(LA), MISS, One("rank", Str("x"))), ResOf("L1", One("name", Str("a"))), Lea(Str(LA), NULL, One("nope", Str("x")))}
Some == {Lea(Str(LA), Str("v1"), <<>>), Err("404"), MISS}
Fine1 == Rslt(Str("PUT"), MISS, Str(LA), MISS, Str("200"), Lea(Str(LA), MISS, <<>>))
Fail1(s) == Rslt(Str("PUT"), MISS, Str(LA), MISS, Str(s), Err(s))
Reps == {Fine1, Fail1("404"), Fail1("300"), Rslt(Str("POST"), Str("q"), MISS, MISS, Str("400"), Err("400")), Rslt(Str("DELETE"), MISS, Str(LK), MISS, Str("204"), MISS),
         Rslt(Str("POST"), Str("q"), Str(LA), Str("v1"), Str("201"), Lea(Str(LA), Str("v1"), One("name", Str("a")))),
         Rslt(Str("PATCH"), MISS, Str(LA), MISS, Str("204"), MISS), Rslt(Str("PUT"), MISS, Str(LA), Str("v1"), Str("200"), Lea(Str(LB), Str("v2"), <<>>)),
         Rslt(Str("GET"), MISS, Str("https://h/v2/Nope/1"), MISS, Str("200"), MISS), Rslt(MISS, MISS, Str(LA), MISS, Str("200"), MISS),
         Rslt(Str("PUT"), MISS, Str(LA), MISS, Str("404"), Err("400")), Rslt(Str("PUT"), MISS, Str(LA), MISS, MISS, MISS)}
Few == {Fine1, Fail1("404"), Fail1("300"), Rslt(Str("POST"), Str("q"), MISS, MISS, Str("400"), Err("400"))}
Shapes == {NULL, EMPTY, Str("x"), List(<<>>), Obj(One("Operations", List(<<>>))), Obj(One("schemas", Texts0(<<BulkRespS.urn>>)))}
          \cup { Obj(<<<<"schemas", s>>, <<"operations", o>>>>) :
                 s \in {Texts0(<<BulkRespS.urn>>), Texts0(<<BulkReqS.urn>>), Texts0(<<Swap(BulkRespS.urn)>>), List(<<>>), NULL},
                 o \in {NULL, Str("x"), List(<<>>), EMPTY, List(<<NULL>>), List(<<Str("x")>>), List(<<EMPTY>>), List(<<Fine1>>)} }

Bodies(p) ==
  CASE p[1] = "head" -> { BodyV(<<Rslt(p[2], b, l, MISS, s, r)>>) : b \in {MISS, Str("q"), Str(""), NULL}, l \in Locs, s \in Stats, r \in (IF Deep THEN Resps ELSE Some) }
    [] p[1] = "resp" -> { BodyV(<<Rslt(p[2], IF p[2] = Str("POST") THEN Str("q") ELSE MISS, l, v, s, r)>>) :
                          l \in {Str(LA), Str(LK), MISS}, v \in Vers, s \in {Str("200"), Str("201"), Str("204"), Str("300"), Str("404")}, r \in Resps }
    [] p[1] = "two" -> { BodyV(<<p[2], y>>) : y \in Reps }
    [] p[1] = "three" -> { BodyV(<<p[2], y, z>>) : y \in Reps, z \in Reps }
    [] p[1] = "max" -> { BodyV(l) : l \in UpTo(Few, 3) }
    [] p[1] = "shape" -> Shapes
Init == /\ part_ \in ({"head"} \X Methods) \cup ({"resp"} \X {Str("POST"), Str("PUT"), Str("PATCH"), Str("DELETE"), Str("GET")})
                     \cup (({"two"} \cup (IF Deep THEN {"three"} ELSE {})) \X Reps) \cup ({"max"} \X {-1, 0, 1, 2, 3}) \cup ({"shape"} \X {200, 201, 404})
        /\ case_ = NONE
Lim == IF part_[1] = "max" THEN part_[2] ELSE -1
Stat == IF part_[1] = "shape" THEN part_[2] ELSE 200
Next == /\ case_ = NONE /\ UNCHANGED part_
        /\ \E b \in Bodies(part_) : case_' = [b |-> b] /\ Emit("bulk.dump", Call(Lim, Stat, b))
Spec == Init /\ [][Next]_<<part_, case_>>

Run(b, st, max) == BulkDump(BulkRespS, ErrorS, <<L1S, K1S>>, st, b, NULL, max)
OpsOf(b) == LET l == IF IsObj(b) THEN Get(b, Sub1("Operations")) ELSE NULL IN IF IsList(l) THEN l.l ELSE <<>>
Laws == case_ # NONE =>
  LET b == case_.b
      x == TLCEval(Run(b, Stat, Lim))
      in == OpsOf(b)
      out == IF x.body.k = "null" THEN <<>> ELSE OpsOf(x.body)
      alone == TLCEval([i \in 1..Len(in) |-> Run(BodyV(<<in[i]>>), 200, -1)])
      moved(s, i) == { [y EXCEPT !.loc = <<"body", "Operations", Idx(i)>> \o SubSeq(y.loc, 4, Len(y.loc))] : y \in s }
      txt(o, w) == Get(o, Sub1(w))
      num(o) == IntText(txt(o, "status").s)
      failed == Cardinality({ i \in 1..Len(in) : num(in[i]) >= 300 })
  IN /\ (x.body.k = "null") = (x.i # {})
     /\ (x.i = {} => Stat = 200)
     \* every result is judged by itself
     /\ (part_[1] \in {"two", "three"} =>
           \* (a result refused on its own stops the comparison of those beside it)
           /\ (x.i = {}) = (\A i \in 1..Len(in) : alone[i].i = {})
           /\ x.i \subseteq UNION { moved(alone[i].i, i) : i \in 1..Len(in) }
           /\ (x.i = {} => \A i \in 1..Len(in) : out[i] = OpsOf(alone[i].body)[1]))
     \* more failures than allowed are never released
     /\ (part_[1] = "max" => (x.i = {}) = (Lim = -1 \/ failed <= Lim \/ in = <<>>) \/ in = <<>>)
     \* a released result is complete and agrees with itself
     /\ (x.i = {} => \A i \in 1..Len(out) :
           LET o == out[i] m == txt(o, "method").s r == txt(o, "response") l == txt(o, "location") v == txt(o, "version")
           IN /\ m \in {"GET", "POST", "PUT", "PATCH", "DELETE"}
              /\ (m = "POST" => txt(o, "bulkId").k = "str")
              /\ (l.k = "str" \/ (m = "POST" /\ num(o) >= 300))
              /\ (num(o) >= 300 => IsObj(r) /\ Get(r, Sub1("status")) = txt(o, "status"))
              /\ (num(o) < 300 /\ IsObj(r) => /\ Get(r, Ref("", "meta", "location")) \in {MISS, NULL, l}
                                              /\ (~Falsy(v) => Falsy(Get(r, Ref("", "meta", "version"))) \/ Get(r, Ref("", "meta", "version")) = v)
                                              /\ Get(r, Sub1("pin")).k = "miss"
                                              /\ num(o) = (IF m = "POST" THEN 201 ELSE 200)))
=============================================================================

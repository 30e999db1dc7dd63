------------------------------- MODULE MC_Decl ------------------------------
(* Every declaration of schemas (lists of up to three identifiers, in       *)
(* different letter cases, known and unknown) with every state of the data  *)
(* of two extensions.                                                       *)
EXTENDS MC
VARIABLES part_, case_

Main == D1S.urn
E1 == D1S.exts[1].urn
E2 == D1S.exts[2].urn
Ids == {Main, Swap(Main), E1, Swap(E2), "urn:verif:other"}
Lists == { Texts0(l) : l \in UpTo(Ids, 3) }
(* no declaration that could be judged *)
Odd == {MISS, NULL, Str(Main), List(<<IntV(1)>>), List(<<Str(Main), NULL>>), EMPTY}
Data1 == {<<>>, One(E1, Obj(One("extra", Str("x")))), One(Swap(E1), EMPTY), One(E1, NULL), One(E1, Str("x")),
          One(E1, Obj(One("extra", IntV(1)))), One(E1, Obj(One("group", List(<<>>)))), One(E1, Obj(One("nobody", Str("x"))))}
Data2 == {<<>>, One(Swap(E2), Obj(One("OTHER", IntV(1)))), One(E2, Obj(One("other", NULL)))}
Value(l, d1, d2) == Pairs(<<<<"schemas", l>>, <<"str", Str("s")>>>> \o d1 \o d2)

Init == part_ \in Lists \cup Odd /\ case_ = NONE
Next == /\ case_ = NONE /\ UNCHANGED part_
        /\ \E x \in Data1, y \in Data2, d \in {"parse", "dump"} : case_' = [l |-> part_, d1 |-> x, d2 |-> y, dir |-> d]
        /\ Emit("schema", [schema |-> "D1", dir |-> case_'.dir, v |-> Value(case_'.l, case_'.d1, case_'.d2)])
Spec == Init /\ [][Next]_<<part_, case_>>

Res0(c) == TLCEval(Process(D1S, Value(c.l, c.d1, c.d2), c.dir))
CodesOf(r) == { y.code : y \in { z \in r.i : z.loc = <<"schemas">> } }
Codes(c) == CodesOf(Res0(c))
Declared(c) == { Lower(c.l.l[i].s) : i \in 1..Len(c.l.l) }
(* extensions whose data the resource ends up with *)
KeptIn(r) == { Lower(r.v.m[i][1]) : i \in 1..Len(r.v.m) } \cap { Lower(E1), Lower(E2) }
(* the declaration is right iff it names the main schema, every extension   *)
(* that has data, and nothing else                                          *)
Exact(c, r) == c.l \in Lists =>
   (CodesOf(r) = {}) = ( \/ c.l.l = <<>>
                         \/ /\ Lower(Main) \in Declared(c)
                            /\ KeptIn(r) \subseteq Declared(c)
                            /\ Declared(c) \subseteq { Lower(Main), Lower(E1), Lower(E2) } )
(* neither order, nor letter case, nor repetition matters *)
Rev(l) == List([i \in 1..Len(l.l) |-> l.l[Len(l.l) + 1 - i]])
Twice(l) == List(l.l \o l.l)
Lowered(l) == List([i \in 1..Len(l.l) |-> Str(Lower(l.l[i].s))])
Free(c, r) == c.l \in Lists =>
          \A f \in {Rev(c.l), Twice(c.l), Lowered(c.l)} : Codes([c EXCEPT !.l = f]) = CodesOf(r)
(* a declaration that is no list of texts stands by itself *)
Alone(c, r) == c.l \in Odd => CodesOf(r) \cap {27, 28, 29} = {}
(* the data of an extension is what was given to it, under its own name     *)
Own(r) == \A i \in 1..Len(r.v.m) : r.v.m[i][1] \in {"schemas", "str", E1, E2}
Laws == case_ # NONE => LET r == Res0(case_) IN Exact(case_, r) /\ Free(case_, r) /\ Alone(case_, r) /\ Own(r)
=============================================================================

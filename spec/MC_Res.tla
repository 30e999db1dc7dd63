------------------------------- MODULE MC_Res -------------------------------
(* Resources of the small schema D: every combination of states of its      *)
(* attributes, in either direction, under names in either letter case, with *)
(* unknown attributes in between.                                           *)
EXTENDS MC
VARIABLES part_, case_

E1 == D1S.exts[1].urn
E2 == D1S.exts[2].urn
Strs == {<<>>, One("str", Str("s")), One("STR", Str("")), One("sTr", NULL), One("str", IntV(1)), One("stri", Str("s"))}
Ids == {<<>>, One("ID", Str("1")), One("id", Str("a bulkId:1")), One("id", IntV(0))}
Metas == {<<>>, One("META", Obj(One("RESOURCETYPE", Str("Dec")))), One("meta", Obj(<<<<"resourceType", Str("dec")>>, <<"version", Str("v")>>>>)),
          One("meta", Obj(One("location", IntV(1)))), One("meta", Str("x")), One("meta", Obj(One("resourceType", NULL)))}
Ext1 == {<<>>, One(E1, Obj(One("extra", Str("x")))), One(Swap(E1), Obj(<<<<"EXTRA", IntV(1)>>, <<"what", Str("x")>>>>)),
         One(E1, Obj(One("group", List(<<Obj(One("VALUE", Str("v"))), Str("x"), Obj(<<<<"value", IntV(2)>>, <<"extra", Str("y")>>>>)>>)))),
         One(E1, EMPTY), One(E1, IntV(3)),
         <<<<E1 \o ":extra", Str("flat")>>>>}
Ext2 == {<<>>, One(Swap(E2), Obj(One("OTHER", IntV(1)))), One(E2, Obj(One("other", Str("1"))))}
Ids0 == {Texts0(<<D1S.urn>>), Texts0(<<D1S.urn, E1, E2>>), MISS, Str("x")}
Value(p, s, d, m, x, y) == Pairs(<<<<"schemas", p>>>> \o s \o d \o One("unknown", Obj(One("str", IntV(5)))) \o m \o x \o y)

Init == part_ \in { <<p, x, y>> : p \in Ids0, x \in Ext1, y \in Ext2 } /\ case_ = NONE
Next == /\ case_ = NONE /\ UNCHANGED part_
        /\ \E s \in Strs, d \in Ids, m \in Metas, dir \in {"parse", "dump"} :
             /\ Deep \/ part_[1] = Texts0(<<D1S.urn, E1, E2>>) \/ (m = <<>> /\ d = <<>>)
             /\ case_' = [v |-> Value(part_[1], s, d, m, part_[2], part_[3]), dir |-> dir,
                          ps |-> <<s, d, m, part_[2], part_[3]>>, p |-> part_[1]]
             /\ Emit("schema", [schema |-> "D1", dir |-> dir, v |-> case_'.v])
Spec == Init /\ [][Next]_<<part_, case_>>

Names == { x.a.n : x \in ToSet(Tops(D1S)) }
(* only defined attributes, under the names of their definitions            *)
Canonical(r) ==
  \A i \in 1..Len(r.v.m) :
    LET k == r.v.m[i][1] w == r.v.m[i][2]
    IN \/ k \in { D1S.attrs[j].n : j \in 1..Len(D1S.attrs) }
       \/ k = E1 /\ IsObj(w) /\ w.m # <<>> /\ \A j \in 1..Len(w.m) : w.m[j][1] \in {"extra", "group"}
       \/ k = E2 /\ IsObj(w) /\ w.m # <<>> /\ \A j \in 1..Len(w.m) : w.m[j][1] = "other"
(* accepted data holds no placeholders and is accepted again, as it is      *)
Stable(c, r) == r.i = {} => ~HasPlaceholder(r.v) /\ Process(D1S, r.v, c.dir) = r
(* apart from the declaration, each part is judged on its own               *)
Mine(i) == { y \in i : y.loc[1] # "schemas" }
Parts(c, r) ==
  Mine(r.i) = UNION { Mine(Process(D1S, Pairs(<<<<"schemas", c.p>>>> \o c.ps[j]), c.dir).i) : j \in 1..Len(c.ps) }
(* neither the order of the keys ...                                        *)
RevKeys(v) == Obj([i \in 1..Len(v.m) |-> v.m[Len(v.m) + 1 - i]])
Order(c, r) == LET q == Process(D1S, RevKeys(c.v), c.dir) IN q.i = r.i /\ SameV(q.v, r.v)
(* ... nor their letter case matters                                        *)
SwapKeys(v) == Obj([i \in 1..Len(v.m) |-> <<Swap(v.m[i][1]), v.m[i][2]>>])
Letter(c, r) == LET q == Process(D1S, SwapKeys(c.v), c.dir) IN q.i = r.i /\ SameV(q.v, r.v)
(* a request is free of issues iff a response is, but for resourceType      *)
Mirror(c, r) == LET q == Process(D1S, c.v, IF c.dir = "parse" THEN "dump" ELSE "parse")
                    rt(i) == { y \in i : y.code # 17 }
                IN rt(q.i) = rt(r.i) /\ q.v = r.v
Laws == case_ # NONE =>
  LET r == TLCEval(Process(D1S, case_.v, case_.dir))
  IN Canonical(r) /\ Stable(case_, r) /\ Parts(case_, r) /\ Order(case_, r) /\ Letter(case_, r) /\ Mirror(case_, r)
=============================================================================

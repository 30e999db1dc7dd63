------------------------------- MODULE MC_Sort ------------------------------
(* Every list of up to four resources with few sort keys (missing, equal up *)
(* to letter case, equal, different), by every kind of attribute, in either *)
(* order, of one schema or of two.                                          *)
EXTENDS MC
VARIABLES part_, case_

Mail(v, p) == Pairs(<<<<"value", v>>, <<"primary", p>>>>)
(* for each attribute the data of one resource, by a key state              *)
Axes == <<
  [ref |-> Ref("", "name", ""), states |-> {<<>>, One("name", Str("a")), One("name", Str("A")), One("name", Str("b"))}, two |-> TRUE],
  [ref |-> Ref("", "NAME", ""), states |-> {One("name", Str("")), One("name", Str("a")), One("name", Str("B")), One("name", NULL)}, two |-> FALSE],
  [ref |-> Ref("", "rank", ""), states |-> {<<>>, One("rank", IntV(0)), One("rank", IntV(2)), One("rank", IntV(10))}, two |-> TRUE],
  [ref |-> Ref("", "mails", ""), states |-> {<<>>, One("mails", List(<<Mail(Str("z"), MISS), Mail(Str("b"), BoolV(TRUE))>>)),
                                             One("mails", List(<<Mail(Str("A"), BoolV(TRUE)), Mail(Str("z"), BoolV(FALSE))>>)),
                                             One("mails", List(<<Mail(Str("a"), MISS)>>))}, two |-> FALSE],
  [ref |-> Ref("", "mails", "value"), states |-> {<<>>, One("mails", List(<<Mail(Str("z"), MISS), Mail(Str("b"), BoolV(TRUE))>>)),
                                             One("mails", List(<<Mail(Str("A"), BoolV(TRUE))>>))}, two |-> FALSE],
  [ref |-> Ref("", "meta", "lastModified"), states |-> {<<>>} \cup { One("meta", Obj(One("lastModified", DtV(s)))) :
        s \in {"2024-01-02T03:04:05+00:00", "2024-01-02T04:04:05+01:00", "2023-01-02T03:04:05+00:00"} }, two |-> TRUE],
  [ref |-> ExtRef("urn:verif:small:ext:shared", "team", ""), states |-> {<<>>} \cup { One("urn:verif:small:ext:shared", Obj(One("team", Str(s)))) : s \in {"a", "B"} }, two |-> TRUE],
  [ref |-> Ref("", "externalid", ""), states |-> {<<>>, One("externalId", Str("a")), One("externalId", Str("A")), One("externalId", Str("B"))}, two |-> TRUE],
  [ref |-> Ref("", "nobody", ""), states |-> {<<>>, One("nobody", Str("b"))}, two |-> TRUE],
  [ref |-> Ref("", "only", ""), states |-> {<<>>, One("only", Str("b")), One("only", Str("a"))}, two |-> TRUE]>>
Max0 == IF Deep THEN 5 ELSE 4
ItemOf(st, n, i) == Pairs(<<<<"schemas", Texts0(<<Ur(n)>>)>>, <<"id", Str(ToString(i))>>>> \o st)
Schemas2(k, two) == IF two THEN { [j \in 1..k |-> "L1"], [j \in 1..k |-> IF j % 2 = 1 THEN "L1" ELSE "L2"] } ELSE { [j \in 1..k |-> "L1"] }

Init == part_ \in { <<Axes[i], k, asc>> : i \in 1..Len(Axes), k \in 0..Max0, asc \in BOOLEAN } /\ case_ = NONE
Next ==
  /\ case_ = NONE /\ UNCHANGED part_
  /\ \E f \in [1..part_[2] -> part_[1].states], ns \in Schemas2(part_[2], part_[1].two) :
       case_' = [r |-> part_[1].ref, asc |-> part_[3], ns |-> ns, items |-> [i \in 1..Len(f) |-> ItemOf(f[i], ns[i], i)]]
  /\ Emit("sort", [ref |-> RefR(case_'.r), asc |-> case_'.asc, items |-> case_'.items, schemas |-> case_'.ns,
                   single |-> part_[1].ref.attr # "rank"])
Spec == Init /\ [][Next]_<<part_, case_>>

Laws == case_ # NONE =>
  LET c == case_
      n == Len(c.items)
      Ss == [i \in 1..n |-> SmallS[c.ns[i]]]
      W == TLCEval([i \in 1..n |-> Wrap(c.items[i])])
      keys == TLCEval([i \in 1..n |-> SortKey(c.r, W[i], Ss[i])])
      ord == TLCEval(SortOrder(keys, c.asc))
      before(x, y) == IF c.asc THEN KeyLt(x, y) ELSE KeyLt(y, x)
  IN \* a permutation
     /\ ToSet(ord) = 1..n /\ Len(ord) = n
     \* in order, and stable
     /\ \A p, q \in 1..n : p < q => ~before(keys[ord[q]], keys[ord[p]])
     /\ \A p \in 1..(n - 1) : before(keys[ord[p]], keys[ord[p + 1]]) \/ ord[p] < ord[p + 1]
     \* resources without a key come last when ascending, first when descending
     /\ \A p, q \in 1..n : (p < q /\ keys[ord[p]].k = "none" /\ keys[ord[q]].k # "none") => ~c.asc
     \* sorting what is sorted changes nothing
     /\ LET k2 == TLCEval([i \in 1..n |-> keys[ord[i]]]) IN SortOrder(k2, c.asc) = [i \in 1..n |-> i]
=============================================================================

------------------------------ MODULE MC_Refs -------------------------------
(* All reference texts of a few tokens, all pairs of small references, and  *)
(* every attribute of the small schemas looked up in several spellings.     *)
EXTENDS MC
VARIABLE case_

Tokens0 == {"a", "B1", "_", ".", ":", "-", "$ref", " ", "$"}
TextCases == { [kind |-> "text", s |-> Concat(l)] : l \in UpTo(Tokens0, IF Deep THEN 5 ELSE 4) }
Parts == { Ref(u, a, b) : u \in {"", "urn:a", "URN:A", "urn:b"}, a \in {"x", "X", "y"}, b \in {"", "s", "S"} }
PairCases == { [kind |-> "pair", x |-> x, y |-> y] : x \in Parts, y \in Parts }
RefsOf(S) ==
  LET T == Tops(S)
  IN UNION { {TopRef(T[i])} \cup { SubRef(T[i], T[i].a.subs[j]) : j \in 1..Len(T[i].a.subs) } : i \in 1..Len(T) }
Spellings(r) ==
  LET bare == [r EXCEPT !.schema = "", !.ext = FALSE]
      sw(q) == [q EXCEPT !.schema = Swap(@), !.attr = Swap(@), !.sub = Swap(@)]
  IN {r, bare, sw(r), sw(bare), [r EXCEPT !.schema = r.schema \o "x"], [r EXCEPT !.sub = "zz"],
      [r EXCEPT !.attr = r.attr \o "x"]}
FindCases == UNION { UNION { { [kind |-> "find", schema |-> n, r |-> q, of |-> r] : q \in Spellings(r) }
                             : r \in RefsOf(SmallS[n]) } : n \in IF Deep THEN SmallNames ELSE {"T1", "K1"} }

Init == \/ case_ \in TextCases /\ Emit("ref.parse", [s |-> case_.s])
        \/ case_ \in PairCases /\ Emit("ref.eq", [x |-> RefR(case_.x), y |-> RefR(case_.y)])
                           /\ Emit("ref.topeq", [x |-> RefR(case_.x), y |-> RefR(case_.y)])
        \/ case_ \in FindCases /\ Emit("ref.lookup", [schema |-> case_.schema, ref |-> RefR(case_.r)])
Next == FALSE /\ UNCHANGED case_
Spec == Init /\ [][Next]_case_

(* the parts of a reference are exactly its text *)
RoundTrip == case_.kind = "text" =>
  LET r == ParseRef(case_.s)
  IN IsRef(r) => /\ ShowRef(r) = case_.s
                 /\ ParseRef(ShowRef(r)) = r
                 /\ \A i \in 1..Len(case_.s) : SubSeq(case_.s, i, i) \notin SpaceChars
EqLaws == case_.kind = "pair" =>
  /\ RefEq(case_.x, case_.x)
  /\ RefEq(case_.x, case_.y) = RefEq(case_.y, case_.x)
  /\ RefEq(case_.x, case_.y) => TopEq(case_.x, case_.y)
  /\ RefEq(case_.x, [case_.x EXCEPT !.attr = Swap(@), !.sub = Swap(@), !.schema = Swap(@)])
  /\ (case_.x.schema # "" /\ case_.y.schema # "" /\ RefEq(case_.x, case_.y)) => Lower(ShowRef(case_.x)) = Lower(ShowRef(case_.y))
FindLaws == case_.kind = "find" =>
  LET d == Lookup(SmallS[case_.schema], case_.r)
  IN /\ d.f => RefEq(d.r, case_.r)
     /\ (case_.r.schema # "" /\ RefEq(case_.r, case_.of)) => d.f /\ d.r = case_.of
     /\ d.f = Lookup(SmallS[case_.schema], [case_.r EXCEPT !.attr = Swap(@), !.sub = Swap(@), !.schema = Swap(@)]).f
=============================================================================

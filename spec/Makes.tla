-------------------------------- MODULE Makes -------------------------------
(* What may be put together: references, patch paths, attribute definitions, *)
(* comparisons and service-provider configurations.  What is not consistent *)
(* is refused when it is made.                                              *)
EXTENDS Schemas

RefMade(schema, attr, sub, ext) == /\ IsName(attr)
                                   /\ sub = "" \/ IsName(sub)
                                   /\ ext => schema # ""

(* a path of an attribute, a selection (or NONODE) and a sub-attribute of   *)
(* what is selected (or NOREF)                                              *)
PathMade(attr, n, sub) ==
  /\ attr.sub = "" \/ (~IsNode(n) /\ ~IsRef(sub))
  /\ IsRef(sub) => sub.sub # "" /\ TopEq(sub, attr)
  /\ IsNode(n) => n.op = "complex" /\ RefEq(ParseRef(n.a), attr)

(* references to resources outside of SCIM say so and nothing else *)
AttrMade(t, refs) == t \in {"external", "uri"} => refs \in {<<>>, <<t>>}
AttrRefs(t, refs) == IF t \in {"external", "uri"} THEN <<t>> ELSE refs

(* what an operator may compare with *)
OrderOps == {"gt", "ge", "lt", "le"}
Finds == {"co", "sw", "ew"}
Comparable0(op, v) ==
  IF op \in Finds THEN v.k \in {"str", "flt"}
  ELSE IF op \in OrderOps THEN v.k \in {"str", "int", "flt"}
  ELSE v.k \in {"str", "int", "flt", "bool", "null"}

(* limits stated for what is supported *)
Stated(v) == v.k = "int" /\ v.i # 0
ConfMade(c) == /\ c.bulk = TRUEV => Stated(c.maxOps) /\ Stated(c.maxSize)
               /\ c.filter = TRUEV => Stated(c.maxResults)

(* definitions are equal when all that they state is *)
CanonOf(a) == IF ~a.hc THEN <<>> ELSE IF a.ce THEN a.canon ELSE [i \in 1..Len(a.canon) |-> Lower(a.canon[i])]
SameDef(a, b) ==
  /\ SameText(a.n, b.n) /\ a.t = b.t /\ AttrRefs(a.t, a.refs) = AttrRefs(b.t, b.refs) /\ a.req = b.req /\ a.ce = b.ce
  /\ a.hc = b.hc /\ CanonOf(a) = CanonOf(b) /\ a.vc = b.vc /\ a.mv = b.mv /\ a.mut = b.mut /\ a.ret = b.ret /\ a.uniq = b.uniq
=============================================================================

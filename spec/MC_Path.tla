------------------------------- MODULE MC_Path ------------------------------
(* Patch paths put together from parts, well-formed and not, and pairs of   *)
(* paths to be compared.                                                    *)
EXTENDS MC
VARIABLES part_, case_

Q(s) == "\"" \o s \o "\""
(* [t text, ok well-formed, ...] *)
Prefixes == {[t |-> "", ok |-> TRUE], [t |-> "urn:ietf:params:scim:schemas:core:2.0:User:", ok |-> TRUE], [t |-> "urn:x_y.z-1:", ok |-> TRUE],
             [t |-> ":", ok |-> FALSE], [t |-> "urn::x:", ok |-> FALSE], [t |-> "urn:a b:", ok |-> FALSE]}
Names == {[t |-> "emails", ok |-> TRUE], [t |-> "eMails", ok |-> TRUE], [t |-> "x_1", ok |-> TRUE],
          [t |-> "", ok |-> FALSE], [t |-> "a b", ok |-> FALSE], [t |-> "a/b", ok |-> FALSE]}
Subs0 == {[t |-> "", ok |-> TRUE, n |-> ""], [t |-> ".value", ok |-> TRUE, n |-> "value"], [t |-> ".$ref", ok |-> TRUE, n |-> "$ref"],
          [t |-> ".TYPE", ok |-> TRUE, n |-> "TYPE"],
          [t |-> ".", ok |-> FALSE, n |-> ""], [t |-> ".a.b", ok |-> FALSE, n |-> ""], [t |-> ". a", ok |-> FALSE, n |-> ""], [t |-> " .a", ok |-> FALSE, n |-> ""],
          [t |-> ".value ", ok |-> FALSE, n |-> ""], [t |-> "value", ok |-> FALSE, n |-> ""]}
Exprs == { Node(op, a, v, <<>>) : op \in {"eq", "ne"}, a \in {"value", "type"}, v \in {Str("a b"), Str("A"), IntV(1), TRUEV} } \cup { Node("pr", "primary", MISS, <<>>) }
LeafText(n) == n.a \o " " \o n.op \o (CASE n.v.k = "miss" -> "" [] n.v.k = "str" -> " " \o Q(n.v.s) [] n.v.k = "int" -> " 1" [] n.v.k = "bool" -> " true")
PrN == Node("pr", "primary", MISS, <<>>)
(* selections: [t, ok, n the expression] *)
Sels == { [t |-> "[" \o LeafText(e) \o "]", ok |-> TRUE, n |-> e] : e \in Exprs }
        \cup { [t |-> "[" \o LeafText(e) \o " " \o w \o " primary pr]", ok |-> TRUE, n |-> Node(Lower(w), "", MISS, <<e, PrN>>)] : e \in Exprs, w \in {"and", "OR"} }
        \cup { [t |-> "[not (" \o LeafText(e) \o ")]", ok |-> TRUE, n |-> Node("not", "", MISS, <<e>>)] : e \in Exprs }
        \cup { [t |-> t, ok |-> FALSE, n |-> NONODE] : t \in {"[]", "[value]", "[value eq]", "[value eq " \o Q("a"), "value eq 1]", "[value eq 1]]", "[[value eq 1]",
                "[value eq 1][type eq 1]", "[value zz 1]", "[value eq abc]", "[value gt true]", " [value eq 1]", "[value eq 1 and]", "[(value eq 1]", "(value eq 1)"} }
NoSel == [t |-> "", ok |-> TRUE, n |-> NONODE]

Good == { p.t \o a.t \o s.t \o u.t : p \in { x \in Prefixes : x.ok /\ ~ContainsText(x.t, "2.0") }, a \in {[t |-> "emails"], [t |-> "EMAILS"]},
          s \in {NoSel, [t |-> "[value eq " \o Q("A") \o "]"], [t |-> "[value eq " \o Q("a") \o "]"], [t |-> "[value pr]"]}, u \in {[t |-> ""], [t |-> ".value"], [t |-> ".VALUE"], [t |-> ".type"]} }

Init == /\ part_ \in { <<"parse", p, a>> : p \in Prefixes, a \in Names } \cup { <<"eq", x>> : x \in Good }
        /\ case_ = NONE
Next ==
  /\ case_ = NONE /\ UNCHANGED part_
  /\ \/ /\ part_[1] = "parse"
        /\ \E s \in Sels \cup {NoSel}, u \in Subs0 :
             /\ u.t # "value" \/ (s.ok /\ s # NoSel)
             /\ Deep \/ (part_[2].ok /\ part_[3].ok) \/ (s = NoSel) \/ s.t = "[value eq 1]"
             /\ case_' = [p |-> part_[2], a |-> part_[3], s |-> s, u |-> u, t |-> part_[2].t \o part_[3].t \o s.t \o u.t]
             /\ Emit("path.parse", [s |-> case_'.t])
     \/ /\ part_[1] = "eq"
        /\ \E y \in Good : case_' = [x |-> part_[2], y |-> y] /\ Emit("path.eq", [x |-> part_[2], y |-> y])
Spec == Init /\ [][Next]_<<part_, case_>>

(* accepted exactly when every part is well-formed, and then made of them   *)
Built(c) ==
  LET x == ParsePath(c.t)
      attr == c.p.t \o c.a.t
      sub == IF c.u.n = "" THEN NOREF ELSE ParseRef(attr \o "." \o c.u.n)
  IN IF c.p.ok /\ c.a.ok /\ c.s.ok /\ c.u.ok
     THEN x = IF c.s = NoSel THEN PathV(ParseRef(attr \o c.u.t), NONODE, NOREF)
              ELSE PathV(ParseRef(attr), Node("complex", attr, MISS, <<c.s.n>>), sub)
     ELSE x = NOPATH
Eq(x, y) == LET p == ParsePath(x) q == ParsePath(y)
            IN RefEq(Ref(p.attr.schema, p.attr.attr, p.attr.sub), Ref(q.attr.schema, q.attr.attr, q.attr.sub)) /\ p.f = q.f
               /\ (p.sub.attr = "") = (q.sub.attr = "") /\ (p.sub.attr = "" \/ RefEq(Ref(p.sub.schema, p.sub.attr, p.sub.sub), Ref(q.sub.schema, q.sub.attr, q.sub.sub)))
Laws == case_ # NONE => IF part_[1] = "parse" THEN Built(case_) ELSE Eq(case_.x, case_.x) /\ Eq(case_.x, case_.y) = Eq(case_.y, case_.x)
=============================================================================

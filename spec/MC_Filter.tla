------------------------------ MODULE MC_Filter -----------------------------
(* Filter expressions up to a depth, written out in several ways, and every *)
(* sequence of tokens up to a length.                                       *)
EXTENDS MC
VARIABLES part_, case_

Leaf(op, a, v) == Node(op, a, v, <<>>)
Leaves == {Leaf("eq", "a", IntV(1)), Leaf("pr", "B", MISS), Leaf("sw", "urn:x:1.0:c", Str("x y")), Leaf("ne", "d", NULL)}
Sub2 == {Leaf("gt", "u", FltV(3, 2)), Leaf("pr", "v", MISS)}
Cx(s) == Node("complex", "xs", MISS, <<s>>)
NotN(s) == Node("not", "", MISS, <<s>>)
Bin(w, l) == Node(w, "", MISS, l)
Inside == Sub2 \cup { NotN(s) : s \in Sub2 } \cup { Bin(w, <<s, t>>) : w \in {"and", "or"}, s \in Sub2, t \in Sub2 }
         \cup { Bin("and", <<s, Bin("or", <<t, NotN(s)>>)>>) : s \in Sub2, t \in Sub2 }
Level1 == Leaves \cup { NotN(s) : s \in Leaves } \cup { Cx(s) : s \in Inside } \cup { NotN(Cx(s)) : s \in Inside }
Two == {Leaf("eq", "a", IntV(1)), Cx(Leaf("pr", "v", MISS))}
Some1 == Leaves \cup { NotN(s) : s \in Two } \cup Two
Level2 == { Bin(w, <<s, t>>) : w \in {"and", "or"}, s \in Some1, t \in Some1 }
          \cup { Bin(w, <<s, t, r>>) : w \in {"and", "or"}, s \in Two, t \in Two, r \in Some1 }
Groups == { Bin(w, <<s, t>>) : w \in {"and", "or"}, s \in Two, t \in { NotN(x) : x \in Two } } \cup { Bin("or", <<s, s, s>>) : s \in Two }
Level3 == { NotN(g) : g \in Groups } \cup { Bin(w, <<g, s>>) : w \in {"and", "or"}, g \in Groups, s \in Two \cup Groups }
          \cup { Bin(w, <<s, NotN(g)>>) : w \in {"and", "or"}, g \in Groups, s \in Two }
          \cup { Bin(w, <<s, g, s>>) : w \in {"and", "or"}, g \in Groups, s \in Two }
Level4 == { NotN(Bin(w, <<g, NotN(h)>>)) : w \in {"and", "or"}, g \in Groups, h \in Groups }
          \cup { Bin(w, <<Bin("and", <<NotN(g), s>>), Bin("or", <<s, h>>)>>) : w \in {"and", "or"}, g \in Groups, h \in Groups, s \in Two }
Trees == Level1 \cup Level2 \cup Level3 \cup (IF Deep THEN Level4 ELSE {})

(* ways of writing: [sp spaces, kw keywords in capitals, par redundant      *)
(* parentheses, dot sub-attributes with a dot]                              *)
Ways == {[sp |-> " ", kw |-> FALSE, par |-> FALSE, dot |-> TRUE], [sp |-> "  ", kw |-> TRUE, par |-> TRUE, dot |-> FALSE],
         [sp |-> " ", kw |-> TRUE, par |-> FALSE, dot |-> FALSE], [sp |-> "\t ", kw |-> FALSE, par |-> TRUE, dot |-> TRUE]}
Kw(w, s) == IF w.kw THEN Upper(s) ELSE s
LitText(v) == CASE v.k = "int" -> ToString(v.i) [] v.k = "flt" -> "1.5" [] v.k = "null" -> "null" [] v.k = "str" -> "\"" \o v.s \o "\""
LeafText(n, w, pre) == pre \o n.a \o w.sp \o Kw(w, n.op) \o (IF n.op = "pr" THEN "" ELSE w.sp \o LitText(n.v))
IsLeaf(n) == n.op \notin {"and", "or", "not", "complex"}
RECURSIVE Text(_, _)
Text(n, w) ==
  LET paren(x) == IF w.sp = " " THEN "(" \o x \o ")" ELSE "(" \o w.sp \o x \o " )"
      \* an operand needs parentheses when it binds less tightly
      operand(s) == IF w.par \/ (s.op \in {"and", "or"} /\ ~(n.op = "or" /\ s.op = "and")) THEN paren(Text(s, w)) ELSE Text(s, w)
  IN IF IsLeaf(n) THEN LeafText(n, w, "")
     ELSE IF n.op = "complex" THEN
       IF w.dot /\ IsLeaf(n.sub[1]) THEN LeafText(n.sub[1], w, n.a \o ".") ELSE n.a \o "[" \o Text(n.sub[1], w) \o "]"
     ELSE IF n.op = "not" THEN Kw(w, "not") \o w.sp \o operand(n.sub[1])
     ELSE Join([i \in 1..Len(n.sub) |-> operand(n.sub[i])], w.sp \o Kw(w, n.op) \o w.sp)

Alphabet == {"a pr", "and", "or", "not", "(", ")", "x[", "]"}
Odd(l) == \E i \in 1..(Len(l) - 1) : l[i] = "not" /\ l[i + 1] = "not"
Seqs(n) == { l \in [1..n -> Alphabet] : ~Odd(l) }
Max0 == IF Deep THEN 6 ELSE 5
Prefixes == { <<x, y>> : x \in Alphabet, y \in Alphabet } \ {<<"not", "not">>}

Init == /\ part_ \in { <<"tree", w>> : w \in Ways } \cup { <<"toks", p>> : p \in Prefixes } \cup {<<"short">>}
        /\ case_ = NONE
Next ==
  /\ case_ = NONE /\ UNCHANGED part_
  /\ \/ /\ part_[1] = "tree"
        /\ \E n \in Trees : case_' = [n |-> n, w |-> part_[2], s |-> Text(n, part_[2])]
     \/ /\ part_[1] = "toks"
        /\ \E k \in 0..(Max0 - 2) : \E l \in Seqs(k) :
             ~Odd(part_[2] \o l) /\ case_' = [n |-> NONODE, l |-> part_[2] \o l, s |-> Join(part_[2] \o l, " ")]
     \/ /\ part_[1] = "short"
        /\ \E l \in Seqs(1) \cup {<<>>} : case_' = [n |-> NONODE, l |-> l, s |-> Join(l, " ")]
  /\ Emit("filter.parse", [s |-> case_'.s])
Spec == Init /\ [][Next]_<<part_, case_>>

(* what was written is what is read                                         *)
Faithful(c) == IsNode(c.n) => ParseFilter(c.s) = c.n
(* an independent recogniser of the token sequences: derivable by rewriting *)
RECURSIVE Reduces(_)
Atom(x) == x = "a pr"
Step1(l) ==
  UNION {
    (IF i + 2 <= Len(l) /\ Atom(l[i]) /\ l[i + 1] \in {"and", "or"} /\ Atom(l[i + 2])
     THEN { SubSeq(l, 1, i) \o SubSeq(l, i + 3, Len(l)) } ELSE {})
    \cup (IF i + 2 <= Len(l) /\ l[i] \in {"(", "x["} /\ Atom(l[i + 1]) /\ l[i + 2] = (IF l[i] = "(" THEN ")" ELSE "]")
          THEN { SubSeq(l, 1, i - 1) \o <<"a pr">> \o SubSeq(l, i + 3, Len(l)) } ELSE {})
    \cup (IF i + 1 <= Len(l) /\ l[i] = "not" /\ Atom(l[i + 1])
          THEN { SubSeq(l, 1, i - 1) \o <<"a pr">> \o SubSeq(l, i + 2, Len(l)) } ELSE {})
    : i \in 1..Len(l) }
Reduces(l) == l = <<"a pr">> \/ \E m \in Step1(l) : Reduces(m)
RECURSIVE Nested(_, _, _)
Nested(l, i, d) == IF i > Len(l) THEN FALSE
                   ELSE IF l[i] = "x[" THEN d > 0 \/ Nested(l, i + 1, d + 1)
                   ELSE IF l[i] = "]" THEN Nested(l, i + 1, d - 1) ELSE Nested(l, i + 1, d)
Grammar(c) == ~IsNode(c.n) => IsNode(ParseFilter(c.s)) = (Reduces(c.l) /\ ~Nested(c.l, 1, 0))
Laws == case_ # NONE => Faithful(case_) /\ Grammar(case_)
=============================================================================

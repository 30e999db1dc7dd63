------------------------------ MODULE MC_Match ------------------------------
(* Every operator on every type of attribute (single, multi-valued, complex *)
(* and below brackets), values and literals that are equal, different, of   *)
(* other letter case or of another type; and pairs of expressions.          *)
EXTENDS MC
VARIABLES part_, case_

Q(s) == "\"" \o s \o "\""
Ops == <<"eq", "ne", "co", "sw", "ew", "gt", "ge", "lt", "le">>
TextLits == {Q("ab"), Q("AB"), Q("a"), Q("b"), Q("abc"), Q(""), "5", "true", "null"}
TextVals == {MISS, NULL, Str(""), Str("ab"), Str("aB"), Str("b"), Str("cab")}
NumLits == {"2", "2.0", "-1", "1.5", Q("2"), "null"}
When == {"2024-01-02T03:04:05Z", "2024-01-02T04:04:05+01:00", "2024-01-02T03:04:05.500Z", "2025-01-02T03:04:05Z", "2024-01-02T03:04:05"}
DtVals == {MISS, NULL} \cup { DtV(IsoText(s)) : s \in When } \cup { Str(s) : s \in When }
Item(v, t, p) == Pairs(<<<<"value", v>>, <<"type", t>>, <<"primary", p>>>>)
Items == {Item(Str("ab"), Str("red"), MISS), Item(Str("B"), MISS, BoolV(TRUE)), Item(MISS, Str("blue"), MISS), Item(Str(""), Str("Blue"), BoolV(FALSE))}
CxLists == { List(l) : l \in UpTo(Items, 2) } \cup {MISS, NULL}
(* attribute, values, literals                                              *)
Kinds == <<
  [a |-> "str", vals |-> TextVals, lits |-> TextLits], [a |-> "exact", vals |-> TextVals, lits |-> TextLits],
  [a |-> "uri", vals |-> {MISS, Str("ab"), Str("aB")}, lits |-> {Q("ab"), Q("AB")}],
  [a |-> "strs", vals |-> { List(l) : l \in UpTo({Str("ab"), Str("B"), Str("")}, 2) } \cup {MISS, NULL}, lits |-> {Q("ab"), Q("AB"), Q("b"), "null", "5"}],
  [a |-> "int", vals |-> {MISS, NULL, IntV(2), IntV(-1), IntV(0)}, lits |-> NumLits],
  [a |-> "ints", vals |-> {List(<<IntV(2), IntV(5)>>), List(<<IntV(-1)>>), MISS}, lits |-> NumLits],
  [a |-> "dec", vals |-> {MISS, FltV(2, 1), FltV(3, 2), FltV(-1, 2)}, lits |-> NumLits],
  [a |-> "bool", vals |-> {MISS, NULL, BoolV(TRUE), BoolV(FALSE)}, lits |-> {"true", "false", "null", Q("true")}],
  [a |-> "when", vals |-> DtVals, lits |-> { Q(s) : s \in When } \cup {Q("x"), "5", "null"}],
  [a |-> "bin", vals |-> {MISS, Str("YQ=="), Str("yq==")}, lits |-> {Q("YQ=="), Q("yq==")}],
  [a |-> "cxs", vals |-> CxLists, lits |-> {Q("ab"), Q("b"), "null"}],
  [a |-> "cx", vals |-> {MISS} \cup Items, lits |-> {Q("ab"), "null"}],
  [a |-> "bare", vals |-> {MISS, List(<<Pairs(<<<<"label", Str("ab")>>>>)>>)}, lits |-> {Q("ab")}],
  [a |-> "cxs.value", vals |-> CxLists, lits |-> {Q("ab"), Q("AB"), Q("b"), "null"}],
  [a |-> "cxs.type", vals |-> CxLists, lits |-> {Q("BLUE"), Q("red")}],
  [a |-> "cxs.primary", vals |-> CxLists, lits |-> {"true", "false"}],
  [a |-> "cx.value", vals |-> {MISS, NULL} \cup Items, lits |-> {Q("ab"), Q("b")}],
  [a |-> "nobody", vals |-> {MISS, Str("ab")}, lits |-> {Q("ab")}],
  [a |-> "urn:verif:small:Typ:str", vals |-> TextVals, lits |-> {Q("AB")}],
  [a |-> "urn:verif:small:ext:1:extra", vals |-> TextVals, lits |-> {Q("AB"), "null"}],
  [a |-> "Cxs.NOBODY", vals |-> CxLists, lits |-> {Q("ab")}]>>
DataFor(a, v) ==
  IF v.k = "miss" THEN ResOf("T1", <<>>)
  ELSE IF StartsWith(a, "urn:verif:small:ext:1") THEN ResOf("T1", One("urn:verif:small:ext:1", Obj(One("extra", v))))
  ELSE LET r == ParseRef(a) IN ResOf("T1", One(r.attr, v))
LeafText(a, op, lit) == a \o " " \o op \o " " \o lit

(* compound expressions: parts with every verdict                           *)
Mixed == ResOf("T1", <<<<"str", Str("ab")>>, <<"int", IntV(2)>>, <<"cxs", List(<<Item(Str("ab"), Str("red"), MISS), Item(Str("b"), Str("blue"), BoolV(TRUE))>>)>>>>)
Atoms == {"str eq " \o Q("AB"), "str eq " \o Q("zz"), "nobody pr", "exact eq " \o Q("x"), "exact pr", "when gt " \o Q("2024-01-02T03:04:05Z"),
          "cxs[value eq " \o Q("ab") \o " and type eq " \o Q("blue") \o "]", "cxs[value eq " \o Q("ab") \o " and type eq " \o Q("RED") \o "]",
          "cxs[num gt 1]", "cxs[not (num gt 1)]", "cxs[num gt 1 or value pr]", "cxs[nobody pr or value pr]", "cxs[nobody pr and value pr]",
          "not (str eq " \o Q("AB") \o ")", "not (exact eq " \o Q("x") \o ")", "not (nobody pr)", "cx.value eq " \o Q("x"), "bare.label sw " \o Q("a"),
          "strs eq " \o Q("x"), "decs gt 1"}

Init == /\ part_ \in { <<"leaf", Kinds[i]>> : i \in 1..Len(Kinds) } \cup { <<"pair", x>> : x \in Atoms }
        /\ case_ = NONE
Next ==
  /\ case_ = NONE /\ UNCHANGED part_
  /\ \E strict \in BOOLEAN :
     \/ /\ part_[1] = "leaf"
        /\ \E v \in part_[2].vals :
             \/ \E lit \in part_[2].lits : \E j \in 1..Len(Ops) :
                  LET f == LeafText(part_[2].a, Ops[j], lit)
                  IN /\ IsNode(ParseFilter(f))
                     /\ case_' = [x |-> f, y |-> <<>>, v |-> DataFor(part_[2].a, v), s |-> strict, leaf |-> <<part_[2].a, j, lit, v>>]
             \/ case_' = [x |-> part_[2].a \o " pr", y |-> <<>>, v |-> DataFor(part_[2].a, v), s |-> strict, leaf |-> <<part_[2].a, 0, "", v>>]
     \/ /\ part_[1] = "pair"
        /\ \E y \in Atoms, w \in {"and", "or"} : \E neg \in BOOLEAN :
             case_' = [x |-> (IF neg THEN "not (" ELSE "") \o "(" \o part_[2] \o ") " \o w \o " (" \o y \o ")" \o (IF neg THEN ")" ELSE ""), y |-> <<part_[2], w, y, neg>>,
                       v |-> Mixed, s |-> strict, leaf |-> <<>>]
  /\ Emit("filter.match", [schema |-> "T1", f |-> case_'.x, v |-> case_'.v, strict |-> case_'.s])
Spec == Init /\ [][Next]_<<part_, case_>>

M(f, v, s) == Match(ParseFilter(f), Wrap(v), T1S, s)
(* without strictness there is no undecided verdict *)
Decided(c, r) == ~c.s => r # "M"
(* no data: undecided, or passed unless strict (but for pr)                  *)
Single == {"str", "exact", "uri", "int", "dec", "bool", "when", "bin", "urn:verif:small:Typ:str", "urn:verif:small:ext:1:extra"}
NoData(c, r) == (c.leaf # <<>> /\ c.leaf[1] \in Single /\ Unset(c.leaf[4])) =>
                  r = IF c.leaf[2] = 0 THEN "F" ELSE IF c.s THEN "M" ELSE "P"
(* of values that are there: ge is gt or eq, le is lt or eq, ne is not eq, order is total *)
Has(c) == c.leaf # <<>> /\ c.leaf[2] # 0 /\ c.leaf[1] \in Single /\ ~Unset(c.leaf[4])
V(c, op) == IF IsNode(ParseFilter(LeafText(c.leaf[1], op, c.leaf[3]))) THEN M(LeafText(c.leaf[1], op, c.leaf[3]), c.v, c.s) ELSE "F"
Comparable(c) == \E op \in {"lt", "eq", "gt"} : V(c, op) = "P"
Orders(c, r) == Has(c) =>
   /\ (c.leaf[2] = 7 => (r = "P") = (V(c, "gt") = "P" \/ (V(c, "eq") = "P" /\ c.leaf[1] \notin {"uri", "bin", "bool"})))
   /\ (c.leaf[2] = 9 => (r = "P") = (V(c, "lt") = "P" \/ (V(c, "eq") = "P" /\ c.leaf[1] \notin {"uri", "bin", "bool"})))
   /\ (c.leaf[2] = 6 /\ r = "P" => V(c, "lt") # "P" /\ V(c, "eq") # "P")
   /\ (c.leaf[2] = 1 /\ r = "P" => V(c, "ne") # "P" /\ V(c, "lt") # "P")
   /\ (c.leaf[2] \in 4..5 /\ r = "P" => V(c, "co") = "P")
   /\ (c.leaf[2] = 1 /\ r = "P" /\ c.leaf[1] \in {"str", "exact", "uri"} => V(c, "sw") = "P" /\ V(c, "ew") = "P")
(* some value of a multi-valued attribute                                   *)
Some(c, r) == (c.leaf # <<>> /\ c.leaf[1] \in {"strs", "ints", "cxs", "cxs.value", "cxs.type"} /\ IsList(c.leaf[4]) /\ Len(c.leaf[4].l) > 1 /\ c.s) =>
   (r = "P") = (\E i \in 1..Len(c.leaf[4].l) : M(c.x, DataFor(c.leaf[1], List(<<c.leaf[4].l[i]>>)), TRUE) = "P")
(* and, or, not                                                             *)
Boolean(c, r) == c.y # <<>> =>
   LET x == M(c.y[1], c.v, c.s)
       y == M(c.y[3], c.v, c.s)
       xs == M(c.y[1], c.v, TRUE)
       ys == M(c.y[3], c.v, TRUE)
       both(p, q) == IF p \in {"F", "N"} \/ q \in {"F", "N"} THEN "F" ELSE IF "M" \in {p, q} THEN "M" ELSE "P"
       any(p, q) == IF "P" \in {p, q} THEN "P" ELSE IF "M" \in {p, q} THEN "M" ELSE "F"
       comb(p, q) == IF c.y[2] = "and" THEN both(p, q) ELSE any(p, q)
   IN r = IF ~c.y[4] THEN comb(x, y)
          ELSE LET z == comb(xs, ys) IN IF z = "F" THEN "P" ELSE IF z = "M" /\ ~c.s THEN "P" ELSE "F"
Laws == case_ # NONE =>
  LET r == M(case_.x, case_.v, case_.s)
  IN Decided(case_, r) /\ NoData(case_, r) /\ Orders(case_, r) /\ Some(case_, r) /\ Boolean(case_, r)
=============================================================================

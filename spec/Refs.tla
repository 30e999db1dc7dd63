-------------------------------- MODULE Refs -------------------------------
(* Attribute references:  [schema ":"] attribute ["." sub-attribute]        *)
EXTENDS Lib

Ref(schema, attr, sub) == [schema |-> schema, attr |-> attr, sub |-> sub, ext |-> FALSE]
ExtRef(schema, attr, sub) == [schema |-> schema, attr |-> attr, sub |-> sub, ext |-> TRUE]
NOREF == [schema |-> "", attr |-> "", sub |-> "", ext |-> FALSE]
IsRef(r) == r.attr # ""

IsName(s) == s = "$ref" \/ (s # "" /\ AllIn(s, WordChars))

RECURSIVE LastColon(_, _)
LastColon(s, i) == IF i = 0 THEN 0 ELSE IF SubSeq(s, i, i) = ":" THEN i ELSE LastColon(s, i - 1)

IsPrefixText(s) == \A seg \in ToSet(SplitBy(s, ":")) : seg # "" /\ AllIn(seg, SegChars)

(* NOREF when the text is not a reference *)
ParseRef(s) ==
  LET c == LastColon(s, Len(s))
      schema == IF c = 0 THEN "" ELSE SubSeq(s, 1, c - 1)
      rest == From(s, c + 1)
      d == FindFrom(rest, ".", 1)
      attr == IF d = 0 THEN rest ELSE SubSeq(rest, 1, d - 1)
      sub == IF d = 0 THEN "" ELSE From(rest, d + 1)
  IN IF /\ c = 0 \/ (schema # "" /\ IsPrefixText(schema))
        /\ IsName(attr)
        /\ d = 0 \/ IsName(sub)
     THEN Ref(schema, attr, sub) ELSE NOREF

ShowRef(r) == (IF r.schema = "" THEN "" ELSE r.schema \o ":") \o r.attr
              \o (IF r.sub = "" THEN "" ELSE "." \o r.sub)
WithSchema(r) == IF r.schema = "" THEN r.attr ELSE r.schema \o ":" \o r.attr

RefEq(a, b) == /\ a.schema = "" \/ b.schema = "" \/ SameText(a.schema, b.schema)
               /\ SameText(a.attr, b.attr)
               /\ SameText(a.sub, b.sub)
TopEq(a, b) == /\ a.schema = "" \/ b.schema = "" \/ SameText(a.schema, b.schema)
               /\ SameText(a.attr, b.attr)
RefIn(r, refs) == \E i \in 1..Len(refs) : RefEq(r, refs[i])

RepV(r) == [k |-> "rep", schema |-> r.schema, attr |-> r.attr, sub |-> r.sub]
=============================================================================

------------------------------- MODULE Filters ------------------------------
(* Filter texts (RFC 7644, 3.4.2.2) and patch paths (3.5.2).                *)
(*   filter  = and *( "or" and )        and = not *( "and" not )            *)
(*   not     = ["not"] primary                                              *)
(*   primary = "(" filter ")" / attr "[" filter "]" / attr "pr"             *)
(*           / attr op literal                                              *)
(* A parsed filter is a tree of nodes [op, a, v, sub].                      *)
EXTENDS Types

Node(op, a, v, sub) == [op |-> op, a |-> a, v |-> v, sub |-> sub]
NONODE == Node("", "", MISS, <<>>)
IsNode(n) == n.op # ""
FilterV(n) == [k |-> "filter", f |-> n]

---------------------------------------------------------------------------
(* tokens [c, s, sp]: class "w" word, "q" quoted text, or the bracket       *)
(* itself; sp: white space (or the beginning) before it                     *)
Quotes == {"\"", "'"}
Brackets == {"(", ")", "[", "]"}
Breaks == SpaceChars \cup Quotes \cup Brackets
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i > Len(s) \/ SubSeq(s, i, i) \in Breaks THEN i ELSE WordEnd(s, i + 1)
Tok(c, s, sp) == [c |-> c, s |-> s, sp |-> sp]
RECURSIVE Tokens(_, _, _, _)
Tokens(s, i, sp, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET c == SubSeq(s, i, i)
       IN IF c \in SpaceChars THEN Tokens(s, i + 1, TRUE, acc)
          ELSE IF c \in Brackets THEN Tokens(s, i + 1, FALSE, Append(acc, Tok(c, c, sp)))
          ELSE IF c \in Quotes THEN
            LET j == FindFrom(s, c, i + 1)
            IN IF j = 0 THEN Append(acc, Tok("bad", c, sp))
               ELSE Tokens(s, j + 1, FALSE, Append(acc, Tok("q", SubSeq(s, i + 1, j - 1), sp)))
          ELSE LET j == WordEnd(s, i)
               IN Tokens(s, j, FALSE, Append(acc, Tok("w", SubSeq(s, i, j - 1), sp)))

---------------------------------------------------------------------------
(* literals: INV when the word is not one *)
RECURSIVE StripZeros(_)
StripZeros(s) == IF s # "" /\ SubSeq(s, Len(s), Len(s)) = "0"
                 THEN StripZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE Reduce(_, _)
Reduce(n, d) == IF d % 2 = 0 /\ n % 2 = 0 THEN Reduce(n \div 2, d \div 2)
                ELSE IF d % 5 = 0 /\ n % 5 = 0 THEN Reduce(n \div 5, d \div 5)
                ELSE <<n, d>>
NumLit(w) ==
  LET neg == SubSeq(w, 1, 1) = "-"
      t == IF neg THEN From(w, 2) ELSE w
      e == Max(FindFrom(t, "e", 1), FindFrom(t, "E", 1))
      mant == IF e = 0 THEN t ELSE SubSeq(t, 1, e - 1)
      exp == IF e = 0 THEN "0" ELSE From(t, e + 1)
      p == FindFrom(mant, ".", 1)
      whole == IF p = 0 THEN mant ELSE SubSeq(mant, 1, p - 1)
      frac == IF p = 0 THEN "" ELSE From(mant, p + 1)
      fz == StripZeros(frac)
      sign == IF neg THEN 0 - 1 ELSE 1
  IN IF ~(IsDigits(whole) /\ (p = 0 \/ IsDigits(frac)) /\ IsIntText(exp)) THEN INV
     ELSE IF Len(whole) > 9 \/ Len(frac) > 9 THEN
       (IF p = 0 /\ e = 0 THEN [k |-> "big", s |-> w] ELSE INV)
     ELSE LET x == IntText(exp)
              n == ToNat(whole \o fz) * (IF x > 0 THEN Pow(10, x) ELSE 1)
              d == Pow(10, Len(fz)) * (IF x < 0 THEN Pow(10, 0 - x) ELSE 1)
              r == Reduce(n, d)
          IN IF r[2] = 1 THEN IntV(sign * r[1])
             ELSE IF r[2] \in {2, 4, 8, 16, 32, 64}
                  THEN [k |-> "flt", n |-> sign * r[1], d |-> r[2]]
             ELSE [k |-> "fx", s |-> (IF neg THEN "-" ELSE "") \o whole \o "." \o fz]
Literal(tok) ==
  IF tok.c = "q" THEN Str(tok.s)
  ELSE IF tok.c # "w" THEN INV
  ELSE IF tok.s = "true" THEN TRUEV
  ELSE IF tok.s = "false" THEN [k |-> "bool", b |-> FALSE]
  ELSE IF tok.s = "null" THEN NULL
  ELSE NumLit(tok.s)

BinaryOps == {"eq", "ne", "co", "sw", "ew", "gt", "ge", "lt", "le"}
Fits(op, v) == IF op \in {"eq", "ne"} THEN v.k # "inv"
               ELSE IF op \in {"co", "sw", "ew"} THEN v.k = "str"
               ELSE v.k \in {"str", "int", "flt", "fx", "big"}

---------------------------------------------------------------------------
(* parser: positions in the token sequence; a result is [n, p] with n the   *)
(* node (NONODE on failure) and p the next position                         *)
Res(n, p) == [n |-> n, p |-> p]
FAIL == Res(NONODE, 0)
IsWord(T, p, w) == p <= Len(T) /\ T[p].c = "w" /\ Lower(T[p].s) = w
IsTok(T, p, c) == p <= Len(T) /\ T[p].c = c

Reserved(w) == Lower(w) \in {"and", "or", "not"}
Compare(T, p) ==
  LET r == ParseRef(T[p].s)
      op == Lower(T[p + 1].s)
      lit == Literal(T[p + 2])
      wrap(leafOp, v) ==
        IF r.sub = "" THEN Node(leafOp, WithSchema(r), v, <<>>)
        ELSE Node("complex", WithSchema(r), MISS, <<Node(leafOp, r.sub, v, <<>>)>>)
  IN IF ~IsTok(T, p, "w") \/ ~IsTok(T, p + 1, "w") \/ ~T[p + 1].sp THEN FAIL
     ELSE IF ~IsRef(r) \/ Reserved(T[p].s) THEN FAIL
     ELSE IF op = "pr" THEN Res(wrap("pr", MISS), p + 2)
     ELSE IF op \notin BinaryOps \/ p + 2 > Len(T) THEN FAIL
     ELSE IF ~T[p + 2].sp THEN FAIL
     ELSE IF ~Fits(op, lit) THEN FAIL
     ELSE Res(wrap(op, lit), p + 3)

RECURSIVE POr(_, _, _), PAnd(_, _, _), PNot(_, _, _), PPrim(_, _, _), More(_, _, _, _, _)
(* further operands of "and" / "or" *)
More(T, p, br, word, acc) ==
  IF IsWord(T, p, word) THEN
    LET x == IF word = "or" THEN PAnd(T, p + 1, br) ELSE PNot(T, p + 1, br)
    IN IF IsNode(x.n) THEN More(T, x.p, br, word, Append(acc, x.n)) ELSE FAIL
  ELSE Res(IF Len(acc) = 1 THEN acc[1] ELSE Node(word, "", MISS, acc), p)
POr(T, p, br) == LET x == PAnd(T, p, br)
                 IN IF IsNode(x.n) THEN More(T, x.p, br, "or", <<x.n>>) ELSE FAIL
PAnd(T, p, br) == LET x == PNot(T, p, br)
                  IN IF IsNode(x.n) THEN More(T, x.p, br, "and", <<x.n>>) ELSE FAIL
PNot(T, p, br) ==
  IF IsWord(T, p, "not") /\ ~(IsTok(T, p + 1, "[") /\ ~T[p + 1].sp) THEN
    LET x == PPrim(T, p + 1, br)
    IN IF IsNode(x.n) THEN Res(Node("not", "", MISS, <<x.n>>), x.p) ELSE FAIL
  ELSE PPrim(T, p, br)
PPrim(T, p, br) ==
  IF IsTok(T, p, "(") THEN
    LET x == POr(T, p + 1, br)
    IN IF IsNode(x.n) /\ IsTok(T, x.p, ")") THEN Res(x.n, x.p + 1) ELSE FAIL
  ELSE IF IsTok(T, p, "w") /\ IsTok(T, p + 1, "[") /\ ~T[p + 1].sp THEN
    LET r == ParseRef(T[p].s)
        x == POr(T, p + 2, TRUE)
    IN IF br \/ ~IsRef(r) \/ Reserved(T[p].s) \/ r.sub # "" THEN FAIL
       ELSE IF IsNode(x.n) /\ IsTok(T, x.p, "]")
            THEN Res(Node("complex", WithSchema(r), MISS, <<x.n>>), x.p + 1) ELSE FAIL
  ELSE IF p <= Len(T) THEN Compare(T, p) ELSE FAIL

ParseTokens(T) == LET x == POr(T, 1, FALSE)
                  IN IF T # <<>> /\ IsNode(x.n) /\ x.p = Len(T) + 1 THEN x.n ELSE NONODE
ParseFilter(s) == ParseTokens(Tokens(s, 1, TRUE, <<>>))

---------------------------------------------------------------------------
(* patch paths: [k, attr, f, sub]; f NONODE without a selection, sub NOREF  *)
(* without a sub-attribute behind the selection                             *)
PathV(attr, f, sub) == [k |-> "path", attr |-> RepV(attr), f |-> f, sub |-> RepV(sub)]
NOPATH == [k |-> "inv"]
ParsePath(s) ==
  LET T == Tokens(s, 1, TRUE, <<>>)
      opens == { i \in 1..Len(T) : T[i].c = "[" }
      closes == { i \in 1..Len(T) : T[i].c = "]" }
      plain == ParseRef(s)
      c == CHOOSE i \in closes : TRUE
      f == ParseTokens(SubSeq(T, 1, c))
      attr == ParseRef(T[1].s)
      rest == SubSeq(T, c + 1, Len(T))
      subtext == IF rest[1].c = "w" /\ SubSeq(rest[1].s, 1, 1) = "." THEN From(rest[1].s, 2) ELSE ""
  IN IF opens = {} /\ closes = {} THEN IF IsRef(plain) THEN PathV(plain, NONODE, NOREF) ELSE NOPATH
     ELSE IF Cardinality(opens) # 1 \/ Cardinality(closes) # 1 THEN NOPATH
     ELSE IF SubSeq(s, Len(s), Len(s)) \in SpaceChars THEN NOPATH
     ELSE IF ~(opens = {2} /\ IsNode(f) /\ f.op = "complex") THEN NOPATH
     ELSE IF rest = <<>> THEN PathV(attr, f, NOREF)
     ELSE IF Len(rest) # 1 \/ rest[1].sp \/ ~IsName(subtext) THEN NOPATH
     ELSE PathV(attr, f, Ref(attr.schema, attr.attr, subtext))
=============================================================================

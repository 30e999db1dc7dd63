-------------------------------- MODULE Lib --------------------------------
(* Text, tagged JSON-like values and comparison of values.                  *)
(*                                                                          *)
(* A value is a record tagged by k:                                         *)
(*   [k |-> "null"] [k |-> "inv"] (invalid placeholder) [k |-> "miss"]      *)
(*   [k |-> "bool", b]  [k |-> "int", i]                                    *)
(*   [k |-> "flt", n, d]   the rational n/d, d a power of two               *)
(*   [k |-> "fx", s]       another float, by its decimal text               *)
(*   [k |-> "big", s] / [k |-> "bigf", s]  large whole int / float          *)
(*   [k |-> "inf", s] [k |-> "nan"]                                         *)
(*   [k |-> "str", s]  [k |-> "dt", s] (a date-time, by its ISO text)       *)
(*   [k |-> "list", l]  [k |-> "obj", m]   m: sequence of <<key, value>>    *)
(* plus the parsed objects "path", "filter", "rep", "checker", "sorter".    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Known      \* texts whose lower case is computed once

---------------------------------------------------------------------------
Ch(s, i) == SubSeq(s, i, i)
Chars(s) == { SubSeq(s, i, i) : i \in 1..Len(s) }

UPPER == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWER == "abcdefghijklmnopqrstuvwxyz"
DIGIT == "0123456789"

PosTab(str) == TLCEval([c \in Chars(str) |-> CHOOSE i \in 1..Len(str) : SubSeq(str, i, i) = c])

UpperPos == PosTab(UPPER)
LowerPos == PosTab(LOWER)
DigitPos == PosTab(DIGIT)
UpperChars == Chars(UPPER)
LowerChars == Chars(LOWER)
DigitChars == Chars(DIGIT)
LowOf == TLCEval([c \in UpperChars |-> SubSeq(LOWER, UpperPos[c], UpperPos[c])])
UpOf  == TLCEval([c \in LowerChars |-> SubSeq(UPPER, LowerPos[c], LowerPos[c])])
WordChars == UpperChars \cup LowerChars \cup DigitChars \cup {"_"}
SegChars == WordChars \cup {".", "-"}
SpaceChars == {" ", "\t", "\n", "\r"}

RECURSIVE MapLow(_, _, _)
MapLow(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET c == SubSeq(s, i, i)
       IN MapLow(s, i + 1, acc \o (IF c \in UpperChars THEN LowOf[c] ELSE c))
LowerStr(s) == MapLow(s, 1, "")

LowTab == TLCEval([s \in Known |-> LowerStr(s)])
KnownSet == DOMAIN LowTab
Lower(s) == IF s \in KnownSet THEN LowTab[s] ELSE LowerStr(s)
SameText(a, b) == a = b \/ Lower(a) = Lower(b)

RECURSIVE MapUp(_, _, _)
MapUp(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET c == SubSeq(s, i, i)
       IN MapUp(s, i + 1, acc \o (IF c \in LowerChars THEN UpOf[c] ELSE c))
Upper(s) == MapUp(s, 1, "")

(* order of characters: the printable ASCII characters, then the others *)
ORDER == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
OrderPos == PosTab(ORDER)
OrderChars == DOMAIN OrderPos
OrdOf(c) == IF c \in OrderChars THEN OrderPos[c] ELSE IF c \in SpaceChars THEN 0 ELSE 1000

RECURSIVE StrLtAt(_, _, _)
StrLtAt(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE LET x == SubSeq(a, i, i)
           y == SubSeq(b, i, i)
       IN IF x = y THEN StrLtAt(a, b, i + 1) ELSE OrdOf(x) < OrdOf(y)
StrLt(a, b) == StrLtAt(a, b, 1)

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
ContainsText(s, p) == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p
(* index of the first occurrence of character c from i on, 0 if none *)
RECURSIVE FindFrom(_, _, _)
FindFrom(s, c, i) == IF i > Len(s) THEN 0
                     ELSE IF SubSeq(s, i, i) = c THEN i ELSE FindFrom(s, c, i + 1)
From(s, i) == SubSeq(s, i, Len(s))
AllIn(s, set) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in set

RECURSIVE NatOf(_, _, _)
NatOf(s, i, acc) == IF i > Len(s) THEN acc
                    ELSE NatOf(s, i + 1, 10 * acc + DigitPos[SubSeq(s, i, i)] - 1)
IsDigits(s) == s # "" /\ AllIn(s, DigitChars)
ToNat(s) == NatOf(s, 1, 0)
(* whole-number text: optional sign and digits (at most 9 of them) *)
IsIntText(s) == LET t == IF s # "" /\ SubSeq(s, 1, 1) \in {"-", "+"} THEN From(s, 2) ELSE s
                IN IsDigits(t)
IntText(s) == IF SubSeq(s, 1, 1) = "-" THEN 0 - ToNat(From(s, 2))
              ELSE IF SubSeq(s, 1, 1) = "+" THEN ToNat(From(s, 2)) ELSE ToNat(s)

RECURSIVE SplitBy(_, _)
SplitBy(s, c) == LET i == FindFrom(s, c, 1)
                 IN IF i = 0 THEN <<s>>
                    ELSE <<SubSeq(s, 1, i - 1)>> \o SplitBy(From(s, i + 1), c)

---------------------------------------------------------------------------
NULL == [k |-> "null"]
INV  == [k |-> "inv"]
MISS == [k |-> "miss"]
TRUEV == [k |-> "bool", b |-> TRUE]
Str(s) == [k |-> "str", s |-> s]
IntV(i) == [k |-> "int", i |-> i]
List(l) == [k |-> "list", l |-> l]
Obj(m) == [k |-> "obj", m |-> m]
EMPTY == Obj(<<>>)
IsObj(v) == v.k = "obj"
IsList(v) == v.k = "list"
IsStr(v) == v.k = "str"
Unset(v) == v.k \in {"null", "miss"}              \* no data at all
Absent(v) == v.k \in {"null", "miss", "inv"}
(* nothing there: the values that count as "not present" *)
Blank(v) == Unset(v) \/ (v.k = "str" /\ v.s = "") \/ (v.k = "list" /\ v.l = <<>>)
Falsy(v) == \/ v.k \in {"null", "miss", "inv"}
            \/ v.k = "str" /\ v.s = ""
            \/ v.k = "list" /\ v.l = <<>>
            \/ v.k = "bool" /\ ~v.b
            \/ v.k = "int" /\ v.i = 0
            \/ v.k = "flt" /\ v.n = 0

ToSet(seq) == { seq[i] : i \in 1..Len(seq) }
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

(* numbers as rationals; a truth value is a number only for plain equality *)
IsNum(v) == v.k \in {"int", "flt"}
NumN(v) == IF v.k = "int" THEN v.i ELSE IF v.k = "bool" THEN (IF v.b THEN 1 ELSE 0) ELSE v.n
NumD(v) == IF v.k = "flt" THEN v.d ELSE 1
NumEq(a, b) == NumN(a) * NumD(b) = NumN(b) * NumD(a)
NumLt(a, b) == NumN(a) * NumD(b) < NumN(b) * NumD(a)

(* equality of values, objects without regard to the order of their keys *)
RECURSIVE SameV(_, _)
SameV(a, b) ==
  IF a.k # b.k THEN FALSE
  ELSE IF a.k = "list" THEN
    Len(a.l) = Len(b.l) /\ \A i \in 1..Len(a.l) : SameV(a.l[i], b.l[i])
  ELSE IF a.k = "obj" THEN
    /\ Len(a.m) = Len(b.m)
    /\ \A i \in 1..Len(a.m) :
         \E j \in 1..Len(b.m) : a.m[i][1] = b.m[j][1] /\ SameV(a.m[i][2], b.m[j][2])
  ELSE a = b

(* does a value contain a placeholder for invalid or missing data *)
RECURSIVE HasPlaceholder(_)
HasPlaceholder(v) ==
  \/ v.k \in {"inv", "miss"}
  \/ v.k = "list" /\ \E i \in 1..Len(v.l) : HasPlaceholder(v.l[i])
  \/ v.k = "obj" /\ \E i \in 1..Len(v.m) : HasPlaceholder(v.m[i][2])
=============================================================================

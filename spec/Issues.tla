------------------------------- MODULE Issues -------------------------------
(* Issue collections.  A collection is a sequence of issues [loc, code, b]: *)
(* location (a sequence of texts), code, and whether it blocks processing   *)
(* at and below its location.  Most of the specification only needs the set *)
(* of issues (I...); histories of one collection keep the sequence (Q...).  *)
EXTENDS Lib

Iss(loc, code, stop) == [loc |-> loc, code |-> code, b |-> stop]
Stop(loc, code) == {Iss(loc, code, TRUE)}
Warn(loc, code) == {Iss(loc, code, FALSE)}
None == {}

IsPre(p, l) == Len(p) <= Len(l) /\ SubSeq(l, 1, Len(p)) = p
At(loc, I) == { Iss(loc \o x.loc, x.code, x.b) : x \in I }
Under(loc, I) == { Iss(SubSeq(x.loc, Len(loc) + 1, Len(x.loc)), x.code, x.b) :
                   x \in { y \in I : IsPre(loc, y.loc) } }
Proceed(I, loc) == \A x \in I : ~(x.b /\ IsPre(x.loc, loc))
HasAt(I, loc) == \E x \in I : IsPre(loc, x.loc)
Without(I, loc, code) == { x \in I : ~(x.loc = loc /\ x.code = code) }
Seen(I) == { <<x.loc, x.code>> : x \in I }
Idx(i) == ToString(i - 1)        \* the i-th element is reported at index i-1

QAdd(q, loc, code, stop) == Append(q, Iss(loc, code, stop))
QMerge(q, other, loc) ==
  q \o [i \in 1..Len(other) |-> Iss(loc \o other[i].loc, other[i].code, other[i].b)]
QGet(q, loc) ==
  LET s == SelectSeq(q, LAMBDA x : IsPre(loc, x.loc))
  IN [i \in 1..Len(s) |-> Iss(SubSeq(s[i].loc, Len(loc) + 1, Len(s[i].loc)), s[i].code, s[i].b)]
QPopped(q, loc, code) ==
  LET s == SelectSeq(q, LAMBDA x : x.loc = loc /\ x.code = code)
      stop == \E i \in 1..Len(s) : s[i].b
  IN [i \in 1..Len(s) |-> Iss(<<>>, code, stop)]
QRest(q, loc, code) == SelectSeq(q, LAMBDA x : ~(x.loc = loc /\ x.code = code))
QProceed(q, loc) == Proceed(ToSet(q), loc)
QHas(q, loc) == HasAt(ToSet(q), loc)
(* how often each issue is held *)
QCount(q) == { <<x.loc, x.code, Cardinality({ i \in 1..Len(q) : q[i].loc = x.loc /\ q[i].code = x.code })>>
               : x \in ToSet(q) }
=============================================================================

--------------------------------- MODULE MC ---------------------------------
(* What the models MC_* share.  A model enumerates the calls (or histories  *)
(* of calls) of a small scope, checks the laws of its part of the           *)
(* specification on each of them, and prints each as a call to be made on   *)
(* the implementation, whose outcome Trace.tla then judges.                 *)
EXTENDS Small, Json, IOUtils

KnownDef == TLCEval(SmallTexts)
Deep == IOEnv.TIER = "thorough"
NONE == [none |-> TRUE]                  \* no case chosen yet
Emit(op, a) == PrintT(ToJson([op |-> op, a |-> a]))

Ur(n) == (IF n \in SmallNames THEN SmallS[n] ELSE BuiltinS[n]).urn
Texts0(l) == List([i \in 1..Len(l) |-> Str(l[i])])
BoolV(b) == [k |-> "bool", b |-> b]
FltV(n, d) == [k |-> "flt", n |-> n, d |-> d]
DtV(s) == [k |-> "dt", s |-> s]
One(k, v) == <<<<k, v>>>>
(* pairs, leaving out those with the value MISS *)
Pairs(ps) == Obj(SelectSeq(ps, LAMBDA p : p[2].k # "miss"))
ResOf(n, ps) == Pairs(<<<<"schemas", Texts0(<<Ur(n)>>)>>>> \o ps)

(* sequences over a set, up to a length *)
UpTo(S, n) == UNION { [1..k -> S] : k \in 0..n }
Swap(s) == LET c(i) == SubSeq(s, i, i)
               x(i) == IF c(i) \in UpperChars THEN LowOf[c(i)] ELSE IF c(i) \in LowerChars THEN UpOf[c(i)] ELSE c(i)
               RECURSIVE go(_)
               go(i) == IF i > Len(s) THEN "" ELSE x(i) \o go(i + 1)
           IN IF s = "$ref" THEN s ELSE go(1)
RECURSIVE Concat(_)
Concat(l) == IF l = <<>> THEN "" ELSE Head(l) \o Concat(Tail(l))
RECURSIVE Join(_, _)
Join(l, sep) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN l[1] ELSE Head(l) \o sep \o Join(Tail(l), sep)
RefR(r) == [schema |-> r.schema, attr |-> r.attr, sub |-> r.sub, ext |-> r.ext]
=============================================================================

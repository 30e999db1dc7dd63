------------------------------- MODULE MC_Pres ------------------------------
(* Required / returned rules on the small schema P: every attribute and     *)
(* sub-attribute in every state, with the others absent or present, under   *)
(* every rule of up to two references.                                      *)
EXTENDS MC
VARIABLES part_, case_

T == TLCEval(Tops(P1S))
F == TLCEval(UNION { {TopRef(T[i])} \cup { SubRef(T[i], T[i].a.subs[j]) : j \in 1..Len(T[i].a.subs) } : i \in 5..Len(T) })
States == {MISS, NULL, Str(""), Str("v"), IntV(0), BoolV(FALSE)}
CxStates(mv) == {MISS, NULL, INV} \cup (IF mv THEN {List(<<>>), List(<<EMPTY, EMPTY>>)} ELSE {EMPTY})
DefOf(r) == Lookup(P1S, r)
Fill(a) == IF a.mv THEN List(<<EMPTY, EMPTY>>) ELSE EMPTY
(* data in which the attributes other than f are absent or present          *)
RECURSIVE Build(_, _, _), BuildSubs(_, _, _)
BuildSubs(x, j, o) ==
  IF j > Len(x.a.subs) THEN o
  ELSE BuildSubs(x, j + 1, Set(o, SubRef(x, x.a.subs[j]), IF x.a.mv THEN List(<<Str("v"), Str("w")>>) ELSE Str("v")))
Build(i, o, full) ==
  IF i > Len(T) THEN o
  ELSE Build(i + 1, IF ~full \/ i < 5 THEN o
                    ELSE IF T[i].a.t = "complex" THEN BuildSubs(T[i], 1, Set(o, TopRef(T[i]), Fill(T[i].a)))
                    ELSE Set(o, TopRef(T[i]), Str("v")), full)
Base == TLCEval([b \in BOOLEAN |-> Build(1, EMPTY, b)])
DataOf(r, st, full) ==
  LET d == DefOf(r)
      o == Base[full]
      up == IF r.sub = "" \/ full THEN o ELSE Set(o, TopRef(d.top), Fill(d.top.a))
      \* of two items of a multi-valued attribute, the first is varied
      v == IF r.sub # "" /\ d.top.a.mv THEN List(<<st, Str("w")>>) ELSE st
  IN IF st.k = "miss" /\ r.sub = "" THEN Del(o, r)
     ELSE IF st.k = "miss" /\ d.top.a.mv THEN Set(Del(up, r), r, List(<<MISS, Str("w")>>))
     ELSE IF st.k = "miss" THEN Del(up, r)
     ELSE Set(up, r, v)
StatesOf(r) == LET d == DefOf(r) IN IF d.d.t = "complex" THEN CxStates(d.d.mv) ELSE States

Loose(r) == [r EXCEPT !.schema = "", !.ext = FALSE]
Pool == { Loose(r) : r \in { q \in F : ~q.ext /\ q.attr \in {"t_default", "t_always", "t_never", "t_request", "t_req_default", "t_req_request", "ask"}
                                        /\ q.sub = "" } }
        \cup { q \in F : q.attr \in {"one", "many", "ask", "must"} /\ q.sub \in {"", "s_default", "s_always", "m_request", "m_req_default", "w"} }
        \cup { q \in F : q.ext /\ q.attr # "x_never" }
        \cup { [schema |-> "", attr |-> "ONE", sub |-> "S_DEFAULT", ext |-> FALSE] }
Rules(r) ==
  {[reps |-> <<>>, inc |-> x, ign |-> g] : x \in {"none", "no"}, g \in {<<>>, <<r>>}}
  \cup { [reps |-> <<q>>, inc |-> x, ign |-> g] : q \in Pool \cup {r, Loose(r)}, x \in {"yes", "no"}, g \in IF Deep THEN {<<>>, <<Loose(r)>>} ELSE {<<>>} }
  \cup { [reps |-> <<r, q>>, inc |-> x, ign |-> <<>>] : q \in IF Deep THEN Pool ELSE {TopRef(DefOf(r).top)}, x \in {"yes", "no"} }
Ruled(rule) == [rule EXCEPT !.reps = [i \in 1..Len(@) |-> RefR(@[i])], !.ign = [i \in 1..Len(@) |-> RefR(@[i])]]

Init == part_ \in { <<r, full>> : r \in F, full \in BOOLEAN } /\ case_ = NONE
Next == /\ case_ = NONE /\ UNCHANGED part_
        /\ \E st \in StatesOf(part_[1]), rule \in Rules(part_[1]), dir \in {"REQUEST", "RESPONSE"} :
             /\ rule.inc = "none" \/ dir = "RESPONSE" \/ rule.ign # <<>>
             /\ case_' = [f |-> part_[1], st |-> st, full |-> part_[2], rule |-> rule, dir |-> dir]
             /\ Emit("presence", [schema |-> "P1", dir |-> dir, rule |-> Ruled(rule), v |-> DataOf(part_[1], st, part_[2])])
Spec == Init /\ [][Next]_<<part_, case_>>

LocF(r, d) == IF r.sub # "" /\ d.top.a.mv THEN LocOf(TopRef(d.top)) \o <<Idx(1), r.sub>> ELSE LocOf(r)
CodesAt(i, loc) == { y.code : y \in { z \in i : z.loc = loc } }
Laws == case_ # NONE =>
  LET c == case_
      r == c.f
      d == DefOf(r)
      i == TLCEval(Presence(c.rule, P1S, DataOf(r, c.st, c.full), c.dir))
      here == CodesAt(i, LocF(r, d))
      there == ~Blank(c.st) /\ c.st.k # "inv"
      gone == Blank(c.st)
      named == RefIn(r, c.rule.reps)
  IN \* what is there may be unwanted only in a response
     /\ (there => here \subseteq (IF c.dir = "RESPONSE" THEN {19} ELSE {}))
     /\ (gone => here \subseteq {15})
     /\ (c.st.k = "inv" => here = {})
     \* never / always are absolute
     /\ (there /\ c.dir = "RESPONSE" /\ d.d.ret = "never" => here = {19})
     /\ (there /\ d.d.ret = "always" => here = {})
     \* what is excluded or was not asked for must not be there
     /\ (there /\ c.dir = "RESPONSE" /\ named /\ d.d.ret \in {"default", "request"} => here = IF c.rule.inc = "no" THEN {19} ELSE {})
     /\ (there /\ c.rule.reps = <<>> /\ d.d.ret # "never" => here = {})
     \* required, unless exempt or not asked for
     /\ (gone /\ ~d.d.req => here = {})
     /\ (gone /\ RefIn(r, c.rule.ign) => here = {})
     /\ (gone /\ d.d.req /\ c.rule.ign = <<>> /\ c.rule.inc # "yes" => here = {15})
     /\ (gone /\ d.d.req /\ c.rule.ign = <<>> /\ c.rule.inc = "yes" =>
           here = IF named \/ (c.dir = "RESPONSE" /\ d.d.ret = "always") THEN {15} ELSE {})
     \* other attributes do not come in
     /\ CodesAt(Presence(c.rule, P1S, DataOf(r, c.st, ~c.full), c.dir), LocF(r, d)) = here
=============================================================================

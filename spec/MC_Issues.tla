----------------------------- MODULE MC_Issues ------------------------------
(* Histories of two issue collections: every history of N changes over a    *)
(* few locations, followed by all questions about both collections.         *)
EXTENDS MC
VARIABLES regs_, hist_, last_

StepCount == 3
Locs == {<<>>, <<"a">>, <<"a", "0">>, <<"a", "0", "b">>, <<"b">>}
Ask == {<<>>, <<"a">>, <<"a", "0">>, <<"a", "0", "b">>, <<"a", "0", "b", "c", "d">>, <<"b">>, <<"b", "a">>, <<"c">>}
Changes ==
  { [do |-> "add", reg |-> 1, other |-> 2, loc |-> p, code |-> k, stop |-> t] :
      p \in Locs, k \in {2, 15}, t \in BOOLEAN }
  \cup { [do |-> "merge", reg |-> g, other |-> 3 - g, loc |-> p, code |-> 2, stop |-> FALSE] :
         g \in {1, 2}, p \in {<<>>, <<"a">>, <<"a", "0", "b">>} }
  \cup { [do |-> "get", reg |-> 1, other |-> 2, loc |-> p, code |-> 2, stop |-> FALSE] : p \in {<<>>, <<"a">>, <<"a", "0">>} }
  \cup { [do |-> "pop", reg |-> 1, other |-> 2, loc |-> p, code |-> 2, stop |-> FALSE] : p \in Locs }
Apply(R, s) ==
  CASE s.do = "add" -> [R EXCEPT ![s.reg] = QAdd(R[s.reg], s.loc, s.code, s.stop)]
    [] s.do = "merge" -> [R EXCEPT ![s.reg] = QMerge(R[s.reg], R[s.other], s.loc)]
    [] s.do = "get" -> [R EXCEPT ![s.other] = QGet(R[s.reg], s.loc)]
    [] s.do = "pop" -> [R EXCEPT ![s.other] = QPopped(R[s.reg], s.loc, s.code), ![s.reg] = QRest(R[s.reg], s.loc, s.code)]
Full(s) == [do |-> s.do, reg |-> s.reg, other |-> s.other, loc |-> s.loc, code |-> s.code, stop |-> s.stop, locs |-> <<>>]
RECURSIVE SetSeq(_)
SetSeq(R) == IF R = {} THEN <<>> ELSE LET r == CHOOSE x \in R : TRUE IN <<r>> \o SetSeq(R \ {r})
Questions == SetSeq({ [do |-> d, reg |-> g, other |-> 3 - g, loc |-> <<>>, code |-> 2, stop |-> FALSE, locs |-> <<p>>] :
                      d \in {"proceed", "has"}, g \in {1, 2}, p \in Ask })
Init == regs_ = <<<<>>, <<>>>> /\ hist_ = <<>> /\ last_ = [s |-> [do |-> "none"], before |-> <<<<>>, <<>>>>]
Next == /\ Len(hist_) < StepCount
        /\ \E s \in Changes :
             /\ regs_' = Apply(regs_, s)
             /\ hist_' = Append(hist_, Full(s))
             /\ last_' = [s |-> s, before |-> regs_]
             \* a history that ends in "add" adds nothing to the one without it
             /\ IF Len(hist_) = StepCount - 1 /\ s.do # "add"
                THEN Emit("issues", [n |-> 2, steps |-> hist_' \o Questions]) ELSE TRUE
Spec == Init /\ [][Next]_<<regs_, hist_, last_>>

Sets(R) == <<ToSet(R[1]), ToSet(R[2])>>
(* blocking reaches down, having issues reaches up *)
Reach == \A g \in {1, 2} : \A p, q \in Ask :
           IsPre(p, q) => /\ (QProceed(regs_[g], q) => QProceed(regs_[g], p))
                          /\ (QHas(regs_[g], q) => QHas(regs_[g], p))
(* nothing is lost or invented *)
Count(q) == Len(q)
Kept == LET s == last_.s b == last_.before
        IN /\ s.do = "merge" => /\ Len(regs_[s.reg]) = Len(b[s.reg]) + Len(b[s.other])
                                /\ regs_[s.other] = b[s.other]
           /\ s.do = "pop" => /\ Len(regs_[s.reg]) + Len(regs_[s.other]) = Len(b[s.reg])
                              /\ \A i \in 1..Len(regs_[s.reg]) : ~(regs_[s.reg][i].loc = s.loc /\ regs_[s.reg][i].code = s.code)
           /\ s.do = "get" => /\ regs_[s.reg] = b[s.reg]
                              /\ \A p \in Ask : QHas(b[s.reg], s.loc \o p) = QHas(regs_[s.other], p)
(* a merged collection blocks below its new place exactly what it blocked *)
Merged == LET s == last_.s b == last_.before
          IN s.do = "merge" =>
             \A p \in Ask : QProceed(regs_[s.reg], s.loc \o p)
                            = (QProceed(b[s.reg], s.loc \o p) /\ QProceed(b[s.other], p))
=============================================================================

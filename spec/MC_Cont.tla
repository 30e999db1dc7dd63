------------------------------ MODULE MC_Cont -------------------------------
(* Histories of assignments and deletions on resource data: every history   *)
(* of N steps over a few references (several spellings of the same          *)
(* attribute, sub-attributes of an object and of a list, extensions) from   *)
(* several initial contents.  Every history ends with reads of everything.  *)
EXTENDS MC
VARIABLES start_, data_, hist_, last_

StepCount == IF Deep THEN 3 ELSE 2
Refs0 == {Ref("", "a", ""), Ref("", "A", ""), Ref("", "b", "s"), Ref("", "B", "S"), Ref("", "b", "t"), Ref("", "list", "s"), Ref("", "list", ""),
          ExtRef("urn:E:1", "a", ""), ExtRef("URN:e:1", "b", "s"), Ref("urn:core", "a", "")}
Starts == {EMPTY,
           Obj(<<<<"a", Str("1")>>, <<"b", Obj(<<<<"s", Str("x")>>>>)>>>>),
           Obj(<<<<"b", Str("no object")>>, <<"list", List(<<Obj(<<<<"s", IntV(1)>>>>), Obj(<<<<"t", IntV(2)>>>>)>>)>>>>),
           Obj(<<<<"urn:E:1", Obj(<<<<"a", Str("e")>>, <<"b", Obj(<<<<"s", Str("1")>>, <<"t", NULL>>>>)>>>>)>>, <<"A", NULL>>>>),
           Obj(<<<<"list", List(<<Str("p")>>)>>, <<"LIST", List(<<>>)>>, <<"a", IntV(0)>>>>)}
ValuesFor(r) ==
  IF Lower(r.attr) = "list" THEN
    IF r.sub = "" THEN {List(<<>>), List(<<Obj(<<<<"S", Str("q")>>>>)>>), NULL}
    ELSE {List(<<Str("p"), Str("q")>>), List(<<MISS, Str("r"), NULL>>)}
  ELSE IF r.sub = "" THEN {Str("v"), NULL, Obj(<<<<"s", Str("o")>>>>)} ELSE {Str("v"), BoolV(FALSE)}
StepSets == UNION { { [do |-> "set", r |-> r, v |-> w] : w \in ValuesFor(r) } : r \in Refs0 }
StepDels == { [do |-> "del", r |-> r, v |-> MISS] : r \in Refs0 }

Step(s) == [do |-> s.do, text |-> FALSE, key |-> "", ref |-> RefR(s.r), v |-> s.v]
(* the same by text, where the text denotes the reference *)
ByText(s) == [do |-> s.do, text |-> ~s.r.ext, key |-> ShowRef(s.r), ref |-> RefR(s.r), v |-> s.v]
RECURSIVE Reads(_)
Reads(R) == IF R = {} THEN <<>>
            ELSE LET r == CHOOSE x \in R : TRUE
                 IN <<Step([do |-> "get", r |-> r, v |-> MISS])>> \o Reads(R \ {r})
AllReads == Reads(Refs0)
Call == [init |-> start_,
         steps |-> [i \in 1..Len(hist_) |-> IF i % 2 = 1 THEN Step(hist_[i]) ELSE ByText(hist_[i])]
                   \o AllReads \o <<[Step([do |-> "eq", r |-> Ref("", "a", ""), v |-> start_]) EXCEPT !.text = TRUE],
                                    Step([do |-> "eq", r |-> Ref("", "a", ""), v |-> data_])>>]

Nothing == [do |-> "none", r |-> NOREF, v |-> MISS]
Init == start_ \in Starts /\ data_ = Wrap(start_) /\ hist_ = <<>> /\ last_ = [s |-> Nothing, before |-> EMPTY]
Next == /\ Len(hist_) < StepCount
        /\ \E s \in StepSets \cup StepDels :
             /\ data_' = IF s.do = "set" THEN Set(data_, s.r, s.v) ELSE Del(data_, s.r)
             /\ hist_' = Append(hist_, s)
             /\ last_' = [s |-> s, before |-> data_]
        /\ UNCHANGED start_
        /\ IF Len(hist_) = StepCount - 1
           THEN Emit("cont", [Call EXCEPT !.steps =
                  [i \in 1..Len(hist_') |-> IF i % 2 = 1 THEN Step(hist_'[i]) ELSE ByText(hist_'[i])] \o AllReads
                  \o <<[Step([do |-> "eq", r |-> Ref("", "a", ""), v |-> start_]) EXCEPT !.text = TRUE],
                       Step([do |-> "eq", r |-> Ref("", "a", ""), v |-> data_'])>>])
           ELSE TRUE
Spec == Init /\ [][Next]_<<start_, data_, hist_, last_>>

(* no two names that differ only in letter case, at any level *)
RECURSIVE NoTwins(_)
NoTwins(v) == IF IsObj(v) THEN /\ \A i, j \in 1..Len(v.m) : i # j => Lower(v.m[i][1]) # Lower(v.m[j][1])
                               /\ \A i \in 1..Len(v.m) : NoTwins(v.m[i][2])
              ELSE IF IsList(v) THEN \A i \in 1..Len(v.l) : NoTwins(v.l[i])
              ELSE TRUE
Distinct == NoTwins(data_)
Where(r) == IF r.ext THEN Lower(r.schema) ELSE ""
Apart(r, q) == Where(r) # Where(q) \/ Lower(r.attr) # Lower(q.attr)
               \/ (r.sub # "" /\ q.sub # "" /\ Lower(r.sub) # Lower(q.sub))
(* a step changes what it names and nothing else *)
Local == last_.s.do # "none" =>
  \A q \in Refs0 : Apart(last_.s.r, q) =>
    \/ Get(last_.before, q) = Get(data_, q)
    \/ last_.s.do = "set" /\ last_.s.r.sub # "" /\ IsList(Get(data_, q))      \* new items appear
Written == last_.s.do = "set" /\ last_.s.r.sub = "" => Get(data_, last_.s.r) = last_.s.v
Removed == last_.s.do = "del" /\ last_.s.r.sub = "" /\ last_.s.r.schema = "" => Get(data_, last_.s.r).k = "miss"
Refusal == last_.s.do = "set" /\ Refuses(last_.before, last_.s.r, last_.s.v) => data_ = last_.before
=============================================================================

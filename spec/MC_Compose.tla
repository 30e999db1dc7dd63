---------------------------- MODULE MC_Compose ------------------------------
(* Two resource schemas, built from the same attributes where they name the *)
(* same ones, and the extensions added to them in every order.              *)
EXTENDS MC
VARIABLES bases_, hist_, scs_

X(u, as) == [urn |-> u, attrs |-> as]
Exts == <<X("urn:verif:Ext:a", <<A("team", "string", NoFlags), C("grp", [mv |-> TRUE], <<A("value", "string", NoFlags), A("primary", "boolean", NoFlags)>>)>>),
          X("URN:verif:ext:A", <<A("other", "integer", NoFlags)>>),
          X("urn:verif:ext:b", <<A("name", "string", NoFlags), C("mails", NoFlags, <<A("kind", "string", NoFlags)>>)>>),
          X("urn:verif:small:lea", <<A("self", "string", NoFlags)>>),
          X("urn:verif:ext:c", <<A("TEAM", "integer", NoFlags)>>)>>
Bases == {<<"L1", "L1">>, <<"D1", "L1">>}
Names == {"name", "TEAM", "grp", "other", "self", "mails"}
Refs0 == <<Ref("", "team", ""), Ref("URN:VERIF:EXT:A", "team", ""), Ref("", "GRP", "value"), Ref("urn:verif:ext:a", "other", ""), Ref("", "name", ""),
           Ref("urn:verif:ext:B", "name", ""), Ref("urn:verif:ext:b", "mails", "kind"), Ref("", "mails", "kind"), Ref("", "mails", "value"), Ref("urn:verif:small:LEA", "self", ""),
           Ref("urn:verif:small:Lea", "name", ""), Ref("urn:verif:ext:c", "Team", ""), Ref("", "id", ""), Ref("urn:verif:ext:c", "id", "")>>
Names0 == <<<<"team", "">>, <<"Name", "">>, <<"grp", "value">>, <<"mails", "kind">>, <<"MAILS", "Value">>, <<"meta", "location">>, <<"zz", "">>, <<"zz", "y">>, <<"self", "">>>>
Probe == Obj(<<<<"schemas", Texts0(<<"urn:verif:small:Lea", "urn:verif:ext:A", "urn:verif:ext:b">>)>>, <<"NAME", Str("n")>>, <<"str", Str("s")>>,
               <<"URN:verif:ext:a", Obj(<<<<"Team", Str("t")>>, <<"other", IntV(1)>>, <<"grp", List(<<Obj(One("VALUE", Str("v")))>>)>>>>)>>,
               <<"urn:verif:ext:b", Obj(<<<<"name", IntV(1)>>, <<"mails", Obj(One("kind", Str("k")))>>>>)>>,
               <<"urn:verif:ext:c", Obj(<<<<"team", IntV(3)>>>>)>>>>)
Call == [bases |-> bases_, exts |-> Exts, steps |-> hist_', refs |-> [i \in 1..Len(Refs0) |-> RefR(Refs0[i])], names |-> Names0, probe |-> Probe]

Init == bases_ \in Bases /\ hist_ = <<>> /\ scs_ = [i \in 1..2 |-> [SmallS[bases_[i]] EXCEPT !.exts = <<>>]]
Next == /\ Len(hist_) < (IF Deep THEN 4 ELSE 3) /\ UNCHANGED bases_
        /\ \E s \in 1..2, e \in 1..Len(Exts) :
             /\ hist_' = Append(hist_, [s |-> s, e |-> e, req |-> (Len(hist_) % 2 = 1)])
             /\ scs_' = [scs_ EXCEPT ![s] = Compose(scs_[s], Exts[e])]
        /\ (Len(hist_') = (IF Deep THEN 4 ELSE 3) => Emit("compose", Call))
Spec == Init /\ [][Next]_<<bases_, hist_, scs_>>

Has(S, e) == \E i \in 1..Len(S.exts) : S.exts[i] = Exts[e]
Asked(g, e) == \E i \in 1..Len(hist_) : hist_[i].s = g /\ hist_[i].e = e
Laws == \A g \in 1..2 :
  LET S == scs_[g]
      L == SmallS[bases_[g]].urn
  IN \* identifiers are told apart ignoring case
     /\ \A i, j \in 1..Len(KnownUrns(S)) : i # j => ~SameText(KnownUrns(S)[i], KnownUrns(S)[j])
     \* what was asked for is there, unless something of that name was there before; nothing else is
     /\ \A e \in 1..Len(Exts) : /\ (Has(S, e) => Asked(g, e))
                                /\ (Asked(g, e) => \E i \in 1..Len(KnownUrns(S)) : SameText(KnownUrns(S)[i], Exts[e].urn))
     \* one extension's attributes are found under its own identifier and only there
     /\ \A e \in 1..Len(Exts) : \A i \in 1..Len(Exts[e].attrs) :
          LET d == Lookup(S, Ref(Exts[e].urn, Exts[e].attrs[i].n, ""))
          IN Has(S, e) => d.f /\ d.top.a = Exts[e].attrs[i]
     \* the core attributes stay what they were, and come first
     /\ SubSeq(Tops(S), 1, Len(S.attrs)) = Tops([SmallS[bases_[g]] EXCEPT !.exts = <<>>])
     /\ \A i \in 1..Len(S.attrs) : Lookup(S, Ref("", S.attrs[i].n, "")).top.urn = L
=============================================================================

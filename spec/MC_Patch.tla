------------------------------ MODULE MC_Patch ------------------------------
(* Patch requests on the small schema K: every operation on every kind of   *)
(* target with every shape of value; pairs of operations; faulty envelopes. *)
EXTENDS MC
VARIABLES part_, case_

Sel == "[value eq \"x\"]"
KE == K1S.exts[1].urn
Targets == {MISS, NULL, Str("rw"), Str("RO"), Str("im"), Str("wo"), Str("need"), Str("tags"), Str("needs"), Str("rank"), Str("schemas"), Str("id"), Str("meta.version"),
            Str("cx"), Str("cx.value"), Str("cx.ro"), Str("cx.need"), Str("cxro"), Str("cxro.value"), Str("cxneed"),
            Str("cxs"), Str("cxs.value"), Str("cxs.RO"), Str("cxs" \o Sel), Str("cxs" \o Sel \o ".value"), Str("cxs" \o Sel \o ".ro"), Str("cxs" \o Sel \o ".need"),
            Str("cxs" \o Sel \o ".nobody"), Str("cxsro"), Str("cxsro" \o Sel \o ".value"), Str("cxsro" \o Sel), Str("cxs[nobody eq 1]"),
            Str(KE \o ":erw"), Str(Swap(KE) \o ":ERO"), Str(KE \o ":ecx"), Str(KE \o ":ecx" \o Sel \o ".value"), Str(KE \o ":ecx.need"), Str(KE \o ":rw"),
            Str("urn:other:rw"), Str("erw"), Str("nobody"), Str("cx.nobody"), Str("cxs[value eq]"), Str(""), IntV(1)}
S(v, need, ro) == Pairs(<<<<"value", v>>, <<"need", need>>, <<"ro", ro>>>>)
Ok1 == S(Str("v"), Str("n"), MISS)
Values == {MISS, NULL, Str("v"), Str(""), IntV(1), BoolV(TRUE), List(<<>>), List(<<Str("v")>>), List(<<Str("v"), IntV(1)>>), EMPTY,
           Ok1, S(Str("v"), Str("n"), Str("r")), S(MISS, MISS, NULL), S(IntV(1), Str("n"), MISS), Pairs(<<<<"value", Str("v")>>, <<"zz", IntV(1)>>>>),
           List(<<Ok1>>), List(<<Ok1, S(Str("w"), MISS, MISS)>>), List(<<S(Str("v"), Str("n"), Str("r"))>>), List(<<S(IntV(1), MISS, MISS), Ok1>>), List(<<EMPTY>>),
           List(<<Pairs(<<<<"need", Str("n")>>, <<"primary", BoolV(TRUE)>>>>), Pairs(<<<<"need", Str("n")>>, <<"primary", BoolV(TRUE)>>>>)>>),
           Pairs(<<<<"RW", Str("v")>>, <<"rank", IntV(1)>>, <<"unknown", IntV(1)>>>>), Pairs(<<<<"ro", Str("v")>>>>), Pairs(<<<<"rank", Str("v")>>>>),
           Pairs(<<<<"cx", S(MISS, MISS, Str("r"))>>>>), Pairs(<<<<"cxs", List(<<Ok1, S(Str("w"), MISS, MISS)>>)>>>>), Pairs(<<<<"cxs", List(<<S(Str("v"), Str("n"), Str("r"))>>)>>>>),
           Pairs(<<<<"schemas", Texts0(<<Ur("K1")>>)>>>>), Pairs(<<<<"meta", Obj(One("version", Str("1")))>>>>),
           Pairs(<<<<KE, Obj(<<<<"erw", Str("v")>>, <<"ecx", List(<<S(Str("v"), MISS, MISS)>>)>>>>)>>>>), Pairs(<<<<Swap(KE), Obj(One("ERO", Str("v")))>>>>)}
OpsN == {Str("add"), Str("replace"), Str("REMOVE")}
OpsOdd == {Str("zz"), MISS, NULL, IntV(1), Str("Add")}
OpV(o, p, v) == Pairs(<<<<"op", o>>, <<"path", p>>, <<"value", v>>>>)
PatchUrn == PatchS.urn
Envelope(ops) == Obj(<<<<"schemas", Texts0(<<PatchUrn>>)>>, <<"Operations", ops>>>>)
Good == {OpV(Str("add"), Str("rw"), Str("v")), OpV(Str("remove"), Str("cxs" \o Sel), MISS), OpV(Str("replace"), MISS, Pairs(<<<<"rank", IntV(2)>>>>)), OpV(Str("add"), Str("cxs"), List(<<Ok1>>))}
Wrong == {OpV(Str("add"), Str("ro"), Str("v")), OpV(Str("remove"), MISS, MISS), OpV(Str("remove"), Str("need"), MISS), OpV(Str("add"), Str("rw"), MISS), OpV(Str("replace"), Str("rank"), Str("x")),
          OpV(Str("add"), Str("nobody"), Str("x")), OpV(Str("zz"), Str("rw"), Str("v")), OpV(Str("add"), Str("cxs"), List(<<S(Str("v"), MISS, MISS)>>)), OpV(Str("add"), Str("a["), Str("v")),
          Str("x"), EMPTY, OpV(Str("add"), Str("cxs" \o Sel), Ok1)}
Bodies == { Obj(<<<<"schemas", u>>, <<"Operations", o>>>>) :
            u \in {NULL, Texts0(<<>>), Texts0(<<"urn:x">>), Texts0(<<PatchUrn, "urn:x">>), Texts0(<<Upper(PatchUrn)>>), Str(PatchUrn), List(<<IntV(1)>>)},
            o \in { List(<<x>>) : x \in Good } \cup {List(<<OpV(Str("add"), Str("ro"), Str("v"))>>), List(<<>>), NULL, EMPTY} }
          \cup {NULL, EMPTY, List(<<>>), Obj(One("schemas", Texts0(<<PatchUrn>>))), Obj(One("operations", List(<<OpV(Str("add"), Str("rw"), Str("v"))>>)))}

Init == /\ part_ \in { <<"one", p, o>> : p \in Targets, o \in OpsN } \cup { <<"odd", o>> : o \in OpsOdd } \cup { <<"two", x>> : x \in Good \cup Wrong } \cup {<<"body">>}
        /\ case_ = NONE
Next ==
  /\ case_ = NONE /\ UNCHANGED part_
  /\ \/ /\ part_[1] = "one"
        /\ \E v \in Values : case_' = [ops |-> <<OpV(part_[3], part_[2], v)>>, b |-> Envelope(List(<<OpV(part_[3], part_[2], v)>>))]
     \/ /\ part_[1] = "odd"
        /\ \E p \in {MISS, Str("rw"), Str("ro"), Str("a[")}, v \in {MISS, NULL, Str("v"), EMPTY} :
             case_' = [ops |-> <<OpV(part_[2], p, v)>>, b |-> Envelope(List(<<OpV(part_[2], p, v)>>))]
     \/ /\ part_[1] = "two"
        /\ \E y \in Good \cup Wrong :
             \/ case_' = [ops |-> <<part_[2], y>>, b |-> Envelope(List(<<part_[2], y>>))]
             \/ Deep /\ \E z \in Good \cup Wrong : case_' = [ops |-> <<part_[2], y, z>>, b |-> Envelope(List(<<part_[2], y, z>>))]
     \/ /\ part_[1] = "body"
        /\ \E b \in Bodies : case_' = [ops |-> <<>>, b |-> b]
  /\ Emit("patch.parse", [schema |-> "K1", body |-> case_'.b, qs |-> NULL, headers |-> NULL])
Spec == Init /\ [][Next]_<<part_, case_>>

Run(b) == PatchReqParse(PatchS, K1S, b, NULL, NULL)
RECURSIVE Names(_)
Names(v) == IF IsList(v) THEN UNION { Names(v.l[i]) : i \in 1..Len(v.l) }
            ELSE IF IsObj(v) THEN UNION { {Lower(v.m[i][1])} \cup Names(v.m[i][2]) : i \in 1..Len(v.m) }
            ELSE {}
Secret == {"ro", "schemas", "id", "meta", "cxro", "cxsro", "ero"}
Safe(o) ==
  LET op == Get(o, Sub1("op"))
      path == Get(o, Sub1("path"))
      v == Get(o, Sub1("value"))
      attr == Lower(path.attr.attr)
      sub == IF path.sub.attr = "" THEN Lower(path.attr.sub) ELSE Lower(path.sub.sub)
  IN /\ op \in {Str("add"), Str("replace"), Str("remove")}
     \* nothing read-only is touched
     /\ Names(v) \cap Secret = {}
     /\ (path.k = "path" => attr \notin Secret /\ sub # "ro")
     \* an addition has a value, a removal a target that may go
     /\ (op = Str("add") => ~Unset(v) \/ v.k = "null")
     /\ (op = Str("remove") => path.k = "path" /\ v.k = "miss" /\ ~(attr \in {"need", "needs"} /\ sub = "") /\ sub # "need")
     /\ v.k = "miss" \/ ~HasPlaceholder(v)
Laws == case_ # NONE =>
  LET c == case_
      x == TLCEval(Run(c.b))
      ops == Get(x.body, Sub1("Operations")).l
  IN /\ (x.body.k = "null") = (x.i # {})
     /\ (x.i = {} => \A i \in 1..Len(ops) : Safe(ops[i]))
     \* operations stand for themselves and keep their order
     /\ (c.ops # <<>> => (x.i = {}) = (\A i \in 1..Len(c.ops) : Run(Envelope(List(<<c.ops[i]>>))).i = {}))
     /\ (x.i = {} /\ c.ops # <<>> => \A i \in 1..Len(c.ops) : SameV(Get(Run(Envelope(List(<<c.ops[i]>>))).body, Sub1("Operations")).l[1], ops[i]))
=============================================================================

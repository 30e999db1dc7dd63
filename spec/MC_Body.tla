------------------------------- MODULE MC_Body ------------------------------
(* Creation and replacement requests on the small schemas K (mutability)    *)
(* and P (required), with and without requested attributes.                 *)
EXTENDS MC
VARIABLES part_, case_

V(k) == One(k, Str("v"))
Sub0(need, given, ro) == Pairs(<<<<"value", Str("v")>>, <<"need", need>>, <<"given", given>>, <<"ro", ro>>>>)
Subs0 == { Sub0(a, b, c) : a \in {MISS, Str("n")}, b \in {MISS, Str("g")}, c \in {MISS, Str("r")} }
Bad0 == Pairs(<<<<"need", Str("n")>>, <<"given", Str("g")>>, <<"value", IntV(1)>>>>)
Good0 == Sub0(Str("n"), Str("g"), Str("r"))
Tops0 == { a \o b \o c \o d : a \in {<<>>, V("ID")}, b \in {<<>>, V("need")}, c \in {V("ro"), V("rw") \o V("im") \o V("wo") \o V("unknown")},
           d \in {<<>>, One("needs", List(<<Str("x")>>)), One("needs", List(<<>>))} }
Cxs0 == { x \o y : x \in {<<>>} \cup { One("cxneed", o) : o \in Subs0 }, y \in {<<>>, One("cxro", Good0), One("cx", Sub0(MISS, MISS, Str("r")))} }
        \cup { One("cxneed", Good0) \o One("cxs", l) : l \in { List(<<o>>) : o \in Subs0 } \cup { List(<<Good0, o>>) : o \in Subs0 } \cup {NULL, List(<<>>), List(<<Bad0>>), EMPTY} }
        \cup { One("cxneed", Good0) \o One("cxsro", l) : l \in {List(<<Good0>>), List(<<Sub0(MISS, MISS, MISS)>>)} }
K1E == K1S.exts[1].urn
Exts0 == {<<>>, One(K1E, Obj(V("erw") \o V("ero"))), One(Swap(K1E), Obj(One("ecx", List(<<Good0, Sub0(MISS, Str("g"), MISS)>>))))}
Decl(x) == One("schemas", Texts0(<<K1S.urn>> \o (IF x = <<>> THEN <<>> ELSE <<K1E>>)))
KBodies(t) == { Obj(Decl(x[2]) \o t \o x[1] \o x[2]) :
                x \in { y \in Cxs0 \X Exts0 : Deep \/ y[2] = <<>> \/ y[1] = One("cxneed", Good0) } }
FullTop == V("id") \o V("need") \o V("rw") \o V("ro") \o One("needs", List(<<Str("x")>>))
FullK == Obj(Decl(<<>>) \o FullTop \o One("cxneed", Good0))
Odd == {NULL, EMPTY, List(<<FullK>>), Str("x"), Obj(FullTop \o One("cxneed", Good0)), Obj(One("schemas", Texts0(<<"urn:x">>)) \o FullTop \o One("cxneed", Good0))}

(* P: a full resource without some of its attributes                        *)
PPaths == {<<"t_default">>, <<"t_req_default">>, <<"t_req_never">>, <<"t_req_always">>, <<"t_req_request">>, <<"one">>, <<"one", "s_req_default">>,
           <<"many", "m_req_never">>, <<"many", "m_default">>, <<"must">>, <<"must", "v">>, <<"ask">>, <<"srv">>, <<"cli">>, <<"id">>,
           <<"urn:verif:small:ext:P", "x_req">>, <<"urn:verif:small:ext:P">>}
PSub(p) == Obj([i \in 1..4 |-> <<p \o "req_" \o PNames[i], Str("v")>>] \o V(p \o "default"))
FullP == Obj(One("schemas", Texts0(<<P1S.urn, P1S.exts[1].urn>>)) \o V("id") \o [i \in 1..4 |-> <<"t_req_" \o PNames[i], Str("v")>>] \o V("t_default")
             \o One("one", PSub("s_")) \o One("many", List(<<PSub("m_"), PSub("m_")>>)) \o One("must", List(<<Obj(V("v"))>>)) \o One("ask", Obj(V("v")))
             \o V("srv") \o V("cli") \o One(P1S.exts[1].urn, Obj(V("x_req"))))
RECURSIVE Without2(_, _)
Without2(v, p) ==
  IF IsList(v) THEN List(<<Without2(v.l[1], p)>> \o Tail(v.l))        \* the first item only
  ELSE Obj(SelectSeq([i \in 1..Len(v.m) |-> IF v.m[i][1] # p[1] THEN v.m[i] ELSE IF Len(p) = 1 THEN <<"", MISS>> ELSE <<p[1], Without2(v.m[i][2], Tail(p))>>],
                     LAMBDA x : x[1] # ""))
Cut(p, q) == LET x == Without2(FullP, p) IN IF q = p \/ Len(q) = 0 \/ (p[1] = q[1] /\ Len(p) = 1) THEN x ELSE Without2(x, q)

Queries == {NULL, EMPTY, Obj(One("attributes", Str("rw,cx.value"))), Obj(One("excludeAttributes", Texts0(<<"need">>))), Obj(One("attributes", Str("a b"))),
            Obj(<<<<"attributes", Str("rw")>>, <<"excludeAttributes", Str("need")>>>>), Str("x")}

Init == /\ part_ \in { <<"K", t>> : t \in Tops0 } \cup { <<"odd", v>> : v \in Odd \cup {FullK} } \cup { <<"P", p>> : p \in PPaths }
        /\ case_ = NONE
Next ==
  /\ case_ = NONE /\ UNCHANGED part_
  /\ \E put \in BOOLEAN :
     \/ /\ part_[1] = "K"
        /\ \E b \in KBodies(part_[2]) : case_' = [s |-> "K1", b |-> b, q |-> NULL, put |-> put, p |-> <<>>]
     \/ /\ part_[1] = "odd"
        /\ \E q \in Queries : case_' = [s |-> "K1", b |-> part_[2], q |-> q, put |-> put, p |-> <<>>]
     \/ /\ part_[1] = "P"
        /\ \E r \in PPaths \cup {<<>>} : case_' = [s |-> "P1", b |-> Cut(part_[2], r), q |-> NULL, put |-> put, p |-> <<part_[2], r>>]
  /\ Emit(IF case_'.put THEN "put.parse" ELSE "post.parse", [schema |-> case_'.s, body |-> case_'.b, qs |-> case_'.q, headers |-> NULL])
Spec == Init /\ [][Next]_<<part_, case_>>

RECURSIVE Names(_)
Names(v) == IF IsList(v) THEN UNION { Names(v.l[i]) : i \in 1..Len(v.l) }
            ELSE IF IsObj(v) THEN UNION { {Lower(v.m[i][1])} \cup Names(v.m[i][2]) : i \in 1..Len(v.m) }
            ELSE {}
BodyIss(x) == { y \in x.i : y.loc[1] = "body" }
IsIndex(x) == IsDigits(x)
Laws == case_ # NONE =>
  LET c == case_
      S == SmallS[c.s]
      x == IF c.put THEN PutParse(S, c.b, c.q, NULL) ELSE PostParse(S, c.b, c.q, NULL)
      other == IF c.put THEN PostParse(S, c.b, c.q, NULL) ELSE PutParse(S, c.b, c.q, NULL)
  IN \* released exactly when nothing is wrong
     /\ (x.body.k = "null") = (x.i # {})
     \* a replacement releases nothing read-only, and requires at least what a creation does
     /\ (c.put /\ x.i = {} => Names(x.body) \cap {"ro", "id", "schemas", "cxro", "cxsro", "ero", "unknown"} = {})
     /\ (c.put => other.i \subseteq x.i)
     \* what a creation does not require beyond that is issued by the server
     /\ (~c.put => \A y \in other.i \ x.i : y.code = 15 /\ y.loc[Len(y.loc)] \in {"id", "given", "srv"})
     \* nothing but what is required and absent is missing
     /\ (c.s = "P1" => \A y \in x.i : y.code = 15 /\ y.loc[Len(y.loc)] \notin {"t_default", "s_default", "m_default", "x_default", "v", "ask", "one"})
     /\ (c.s = "P1" /\ c.put => \A p \in ToSet(c.p) :
           (p # <<>> /\ ContainsText(p[Len(p)], "req")) => Cardinality({ y \in x.i : y.loc[Len(y.loc)] = p[Len(p)] }) =
              (IF <<p[1]>> \in ToSet(c.p) /\ Len(p) > 1 THEN (IF p[1] = P1S.exts[1].urn THEN 1 ELSE 0) ELSE 1))
     \* the query and the body are judged apart
     /\ BodyIss(x) = BodyIss(IF c.put THEN PutParse(S, c.b, NULL, NULL) ELSE PostParse(S, c.b, NULL, NULL))
     /\ x.i \ BodyIss(x) = WithRequested(c.q).i
=============================================================================

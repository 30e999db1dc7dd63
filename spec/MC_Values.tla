----------------------------- MODULE MC_Values ------------------------------
(* Every attribute definition of the small schema T with every value of a   *)
(* pool that has members inside and outside of each type.                   *)
EXTENDS MC
VARIABLE case_

Big(s) == [k |-> "big", s |-> s]
Pool1(t) ==
  {NULL, BoolV(TRUE), BoolV(FALSE), IntV(0), IntV(-3), FltV(2, 1), FltV(-3, 1), FltV(1, 2), Str(""), Str("red"), Str("RED"), Str("blue"), EMPTY, List(<<>>),
   [k |-> "nan"], [k |-> "inf", s |-> "inf"], Big("5000000000"), [k |-> "bigf", s |-> "-100000000000000000000"]}
  \cup (IF t = "binary" THEN { Str(x) : x \in {"aGk=", "YQ==", "YWJj", "a", "aG", "aGk", "aGk==", "YR==", "aGl=", "=", "YWJj\n", "a-b_", "a+b/"} }
        ELSE IF t \in {"external", "uri", "scim"}
             THEN { Str(x) : x \in {"http://x.y", "https://h/a?b#c", "x", "http:", "http:/x", "http://", "//x", "1a://x", "a+b://h/", "http:///x"} }
        ELSE IF t = "dateTime"
             THEN { Str(x) : x \in {"2024-02-29T00:00:00Z", "2023-02-29T00:00:00Z", "2024-01-02T03:04:05.123+01:30", "2024-01-02T03:04:05",
                                    "2024-13-01T00:00:00Z", "2024-01-02T24:00:00Z", "2024-01-02T03:60:05Z", "2000-02-29T00:00:00-05:00",
                                    "1900-02-29T00:00:00Z"} } \cup {DtV("2024-01-02T03:04:05+00:00")}
        ELSE {})
ItemKeys == <<"value", "type", "primary", "num", "many">>
(* items of a complex attribute: each sub-attribute absent, good or bad *)
Choice(n) == CASE n = "value" -> {MISS, Str("v"), IntV(1)}
               [] n = "type" -> {MISS, Str("RED"), Str("zz")}
               [] n = "primary" -> {MISS, BoolV(TRUE), Str("true")}
               [] n = "num" -> {MISS, FltV(-7, 1), NULL}
               [] n = "many" -> {MISS, List(<<Str("x"), Str("")>>), Str("x")}
Items == { Pairs(<<<<"value", a>>, <<"TYPE", b>>, <<"primary", p>>, <<"num", x>>, <<"Many", m>>, <<"zz", IntV(1)>>>>) :
           a \in Choice("value"), b \in Choice("type"), p \in Choice("primary"), x \in Choice("num"), m \in Choice("many") }
PrimLists == { List([i \in 1..Len(f) |-> Pairs(<<<<"value", Str("v")>>, <<"primary", f[i]>>>>)]) :
               f \in UpTo({MISS, BoolV(TRUE), BoolV(FALSE)}, 4) }
              \cup { List([i \in 1..Len(f) |-> Pairs(<<<<"value", Str("v")>>, <<"primary", f[i]>>>>)]) :
                     f \in UpTo({BoolV(TRUE), Str("true"), NULL}, 3) }
ValuesOf(a) ==
  LET p == Pool1(a.t)
      good == CHOOSE v \in p \ {NULL, MISS} : OneVal(a, v, "parse").i = {}
  IN IF a.t = "complex" THEN
       IF a.mv THEN { List(<<o>>) : o \in Items } \cup PrimLists \cup p \cup { List(<<x, Pairs(<<<<"value", Str("v")>>>>)>>) : x \in p }
       ELSE Items \cup p \cup { List(<<o>>) : o \in {EMPTY, Pairs(<<<<"value", Str("v")>>>>)} }
     ELSE p \cup (IF a.mv THEN { List(<<x>>) : x \in p } \cup { List(<<good, x>>) : x \in p } \cup { List(<<x, good, x>>) : x \in p }
                  ELSE { List(<<good>>) })
Attrs == Tops(T1S)
(* attributes with processors of their own *)
XAttrs == Tops(X1S)
XTexts == {Str("a"), Str(""), Str("x"), Str("axb"), IntV(1), NULL}
XItems == { Pairs(<<<<"value", a>>, <<"Note", b>>, <<"primary", p>>>>) : a \in {MISS, Str("v"), IntV(1)}, b \in {MISS, Str("n"), NULL, IntV(2)}, p \in {MISS, TRUEV} } \cup {NULL, IntV(1)}
XValues(a) == IF a.t = "complex" THEN IF a.mv THEN { List(l) : l \in UpTo(XItems, IF Deep THEN 2 ELSE 1) \cup [1..2 -> { x \in XItems : x.k = "obj" /\ Len(x.m) # 1 }] } \cup XItems ELSE XItems
              ELSE IF a.mv THEN { List(l) : l \in UpTo(XTexts, 2) } \cup XTexts ELSE XTexts
XCases == UNION { { [top |-> XAttrs[i], v |-> v, dir |-> d] : v \in XValues(XAttrs[i].a), d \in {"parse", "dump"} } : i \in 5..Len(XAttrs) }
Cases == UNION { { [top |-> Attrs[i], v |-> v, dir |-> d] : v \in ValuesOf(Attrs[i].a), d \in {"parse", "dump"} } : i \in 5..Len(Attrs) }

Own == case_.top.a.post # ""
Init == /\ case_ \in Cases \cup XCases
        /\ Emit("attr", [schema |-> IF Own THEN "X1" ELSE "T1", dir |-> case_.dir, v |-> case_.v, ref |-> RefR(TopRef(case_.top))])
Next == FALSE /\ UNCHANGED case_
Spec == Init /\ [][Next]_case_

Out1 == AttrVal(case_.top.a, Wrap(case_.v), case_.dir)
(* what is accepted holds no placeholder and is accepted again, unchanged *)
Clean == Out1.i = {} => ~HasPlaceholder(Out1.v)
Again == (~Own /\ Out1.i = {} /\ case_.top.a.t # "dateTime") =>
           LET y == AttrVal(case_.top.a, Out1.v, case_.dir) IN y.i = {} /\ y.v = Out1.v
(* the two directions agree except on date-times, whose texts are read      *)
Mirror == (~Own /\ case_.top.a.t # "dateTime") => Out1 = AttrVal(case_.top.a, Wrap(case_.v), IF case_.dir = "dump" THEN "parse" ELSE "dump")
DtMirror == (case_.top.a.t = "dateTime" /\ case_.dir = "parse" /\ Out1.i = {} /\ Out1.v.k # "null") =>
              LET back == AttrVal(case_.top.a, Out1.v, "dump") IN back.i = {} /\ AttrVal(case_.top.a, back.v, "parse").v = Out1.v
(* a list is accepted exactly when each item is (and one primary at most)   *)
Pointwise == (~Own /\ case_.top.a.mv /\ IsList(case_.v)) =>
  (Out1.i = {}) = ( /\ \A i \in 1..Len(case_.v.l) : AttrVal(case_.top.a, Wrap(List(<<case_.v.l[i]>>)), case_.dir).i = {}
                    /\ Cardinality({ i \in 1..Len(case_.v.l) : IsObj(case_.v.l[i]) /\ (\E j \in 1..Len(case_.top.a.subs) : case_.top.a.subs[j].n = "primary") /\ IsPrimary(Wrap(case_.v.l[i])) }) <= 1 )
(* every processor has seen an accepted value, in the order they are given  *)
Marked == (Out1.i = {} /\ Out1.v.k # "null") =>
  LET m == Mark1(case_.dir) \o Mark2(case_.dir)
      ends(s, t) == Len(s) >= Len(t) /\ From(s, Len(s) - Len(t) + 1) = t
      noted(o) == LET x == Get(o, Sub1("note")) IN ends(x.s, IF Get(Wrap(case_.v), Sub1("note")).k = "str" THEN m \o m ELSE m)
  IN /\ case_.top.a.post = "mark" => ends(Out1.v.s, m)
     /\ case_.top.a.post = "marks" => Len(Out1.v.l) = Len(case_.v.l) + 2
     /\ (case_.top.a.post = "cxMark" /\ ~case_.top.a.mv) => noted(Out1.v)
     /\ case_.top.a.post = "cxPre" => \A o \in IF case_.top.a.mv THEN ToSet(Out1.v.l) ELSE {Out1.v} : Get(o, Sub1("value")).k # "miss"
Single == (~case_.top.a.mv /\ IsList(case_.v)) => Out1.i # {}
=============================================================================

------------------------------ MODULE MC_Make -------------------------------
(* Everything that can be put together from a few parts, consistent or not. *)
EXTENDS MC
VARIABLES part_, case_

Urns0 == {"", "urn:a:b", "URN:a:B", "urn:c"}
Names0 == {"emails", "eMails", "x_1", "$ref", "", "a b", "a.b", "a:b", "$", "a-b", "a/", " a", "[a]"}
Subs0 == {"", "value", "$ref", "VALUE", "a b", "a.b", "$x", " "}
RefCases == { [schema |-> u, attr |-> n, sub |-> s, ext |-> x] : u \in Urns0, n \in Names0, s \in Subs0, x \in BOOLEAN }

Q(s) == "\"" \o s \o "\""
PRefs == { Ref(u, n, s) : u \in {"", "urn:a:b", "URN:A:B", "urn:c"}, n \in {"emails", "EMAILS", "roles"}, s \in {"", "value"} }
PFilters == {""} \cup { u \o n \o t : u \in {"", "urn:a:b:"}, n \in {"emails", "Emails", "roles"}, t \in {"[value eq 1]", "[value pr and type pr]", " pr", ".value eq 1", " eq " \o Q("a")} }
            \cup {"not (emails pr)", "emails[value pr] and emails[type pr]"}
PSubs == {NOREF} \cup PRefs
TypesA == {"string", "integer", "external", "uri", "scim", "dateTime"}
RefLists == UpTo({"external", "uri", "User", "External"}, 2)
OpVals == {NULL, TRUEV, BoolV(FALSE), IntV(0), IntV(5), FltV(1, 2), Str(""), Str("a"), List(<<>>), List(<<Str("a")>>)}
Ops0 == {"eq", "ne"} \cup OrderOps \cup Finds
Opt == {NULL, IntV(0), IntV(1), IntV(100)}
Confs == { [doc |-> IF b THEN "d" ELSE "", bulk |-> BoolV(b), maxOps |-> m, maxSize |-> z, filter |-> BoolV(f), maxResults |-> q,
            patch |-> BoolV(p), sort |-> BoolV(~p), etag |-> BoolV(b # p), password |-> BoolV(f # p)] :
           b \in BOOLEAN, m \in Opt, z \in Opt, f \in BOOLEAN, q \in Opt, p \in BOOLEAN }
Keys == { Concat(l) : l \in UpTo({"a", "B", ".", ":", " ", "$ref", "-"}, IF Deep THEN 4 ELSE 3) }

(* definitions one or two characteristics apart *)
Base0 == A("x", "string", NoFlags)
Change(d, k) ==
  CASE k = "same" -> d
    [] k = "case" -> [d EXCEPT !.n = "X"]
    [] k = "name" -> [d EXCEPT !.n = "y"]
    [] k = "mv" -> [d EXCEPT !.mv = ~@]
    [] k = "req" -> [d EXCEPT !.req = ~@]
    [] k = "ce" -> [d EXCEPT !.ce = ~@]
    [] k = "canon" -> [d EXCEPT !.hc = TRUE, !.canon = <<"a", "B">>]
    [] k = "canon2" -> [d EXCEPT !.hc = TRUE, !.canon = <<"A", "b">>]
    [] k = "canon3" -> [d EXCEPT !.hc = TRUE, !.canon = <<"a">>]
    [] k = "vc" -> [d EXCEPT !.vc = ~@]
    [] k = "mut" -> [d EXCEPT !.mut = "immutable"]
    [] k = "ro" -> [d EXCEPT !.mut = "readOnly"]
    [] k = "ret" -> [d EXCEPT !.ret = "always"]
    [] k = "never" -> [d EXCEPT !.ret = "never"]
    [] k = "uniq" -> [d EXCEPT !.uniq = "server"]
    [] k = "global" -> [d EXCEPT !.uniq = "global"]
    [] k = "int" -> [d EXCEPT !.t = "integer"]
    [] k = "scim" -> [d EXCEPT !.t = "scim", !.refs = <<"User">>]
    [] k = "scim2" -> [d EXCEPT !.t = "scim", !.refs = <<"Group", "User">>]
    [] k = "uri" -> [d EXCEPT !.t = "uri", !.refs = <<"uri">>]
    [] k = "cx" -> [d EXCEPT !.t = "complex", !.subs = <<A("value", "string", NoFlags)>>]
Changes == {"same", "case", "name", "mv", "req", "ce", "canon", "canon2", "canon3", "vc", "mut", "ro", "ret", "never", "uniq", "global", "int", "scim", "scim2", "uri", "cx"}
Defs0 == { Change(Change(Base0, k), l) : k \in Changes, l \in {"same", "ce", "canon", "mv"} }
Def1(d) == IF d.t = "complex" THEN [d EXCEPT !.ce = FALSE, !.hc = FALSE, !.canon = <<>>, !.vc = FALSE] ELSE d
Defs == { Def1(d) : d \in Defs0 }

Init == /\ part_ \in { <<"path", r>> : r \in PRefs } \cup {<<"ref">>, <<"attr">>, <<"op">>, <<"conf">>, <<"key">>} \cup { <<"eq", d>> : d \in Defs }
        /\ case_ = NONE
Next ==
  /\ case_ = NONE /\ UNCHANGED part_
  /\ \/ /\ part_[1] = "ref"
        /\ \E c \in RefCases : case_' = c /\ Emit("ref.make", c)
     \/ /\ part_[1] = "path"
        /\ \E f \in PFilters, s \in PSubs :
             case_' = [attr |-> part_[2], f |-> f, sub |-> s] /\ Emit("path.make", [attr |-> RefR(part_[2]), f |-> f, sub |-> RefR(s)])
     \/ /\ part_[1] = "attr"
        /\ \E t \in TypesA, l \in RefLists, m \in BOOLEAN : case_' = [t |-> t, refs |-> l, mv |-> m] /\ Emit("attr.make", case_')
     \/ /\ part_[1] = "op"
        /\ \E o \in Ops0, v \in OpVals, r \in {Ref("", "x", ""), Ref("urn:a:b", "Y", "")} : case_' = [op |-> o, v |-> v, ref |-> r] /\ Emit("op.make", [op |-> o, v |-> v, ref |-> RefR(r)])
     \/ /\ part_[1] = "conf"
        /\ \E c \in Confs : case_' = c /\ Emit("conf.make", c)
     \/ /\ part_[1] = "key"
        /\ \E k \in Keys, d \in {"get", "set", "del"} :
             case_' = [key |-> k, do |-> d] /\ Emit("cont.key", [key |-> k, do |-> d, init |-> Obj(One("a", Obj(One("B", IntV(1)))))])
     \/ /\ part_[1] = "eq"
        /\ \E d \in Defs : case_' = [x |-> part_[2], y |-> d] /\ Emit("attr.eq", case_')
Spec == Init /\ [][Next]_<<part_, case_>>

(* what is made of its parts has those parts in its text, and reads back    *)
RefLaw == LET r == Ref(case_.schema, case_.attr, case_.sub)
          IN RefMade(case_.schema, case_.attr, case_.sub, case_.ext) =>
               ParseRef(ShowRef(r)) = r
PathLaw == LET n == IF case_.f = "" THEN NONODE ELSE ParseFilter(case_.f)
           IN /\ (ContainsText(case_.f, "[") /\ PathMade(case_.attr, n, NOREF)) => ParsePath(case_.f) = PathV(ParseRef(n.a), n, NOREF)
              /\ (PathMade(case_.attr, n, case_.sub) /\ IsRef(case_.sub)) => case_.attr.sub = "" /\ PathMade(case_.attr, n, NOREF)
OpLaw == Comparable0(case_.op, case_.v) =>
           \/ case_.v.k \in {"str", "null", "flt"} \/ IsNode(ParseFilter("x " \o case_.op \o " " \o (IF case_.v.k = "int" THEN "5" ELSE "true")))
EqLaw == /\ SameDef(case_.x, case_.x) /\ SameDef(case_.x, case_.y) = SameDef(case_.y, case_.x)
         /\ SameDef(case_.x, case_.y) => \A v \in {Str("a"), Str("A"), Str("c"), IntV(1), List(<<Str("B")>>)}, d \in {"parse", "dump"} :
              AttrVal(case_.x, v, d) = AttrVal(case_.y, v, d)
Laws == case_ # NONE => CASE part_[1] = "ref" -> RefLaw [] part_[1] = "path" -> PathLaw [] part_[1] = "op" -> OpLaw [] part_[1] = "eq" -> EqLaw [] OTHER -> TRUE
=============================================================================

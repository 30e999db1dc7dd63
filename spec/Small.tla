------------------------------- MODULE Small --------------------------------
(* Small resource schemas over which the models MC_* are explored: every     *)
(* kind of attribute definition occurs in one of them.                       *)
EXTENDS Builtin

Common == <<SchemasA, IdA, ExternalIdA, MetaA>>
Res1(id, attrs, exts) ==
  [urn |-> "urn:verif:small:" \o id, name |-> id, plural |-> id \o "s", res |-> TRUE,
   attrs |-> Common \o attrs, exts |-> exts]
Multi == [mv |-> TRUE]
Canon == <<"red", "Blue">>

(* T: one attribute of every type, single and multi-valued *)
TItem == <<
  A("value", "string", NoFlags), A("type", "string", [hc |-> TRUE, canon |-> Canon, vc |-> TRUE]),
  A("primary", "boolean", NoFlags), A("num", "integer", NoFlags), A("many", "string", Multi)>>
T1S == Res1("Typ", <<
  A("str", "string", NoFlags), A("strs", "string", Multi),
  A("exact", "string", [ce |-> TRUE]),
  A("canon", "string", [hc |-> TRUE, canon |-> Canon, vc |-> TRUE]),
  A("canons", "string", [mv |-> TRUE, hc |-> TRUE, canon |-> Canon, vc |-> TRUE]),
  A("canonX", "string", [hc |-> TRUE, canon |-> Canon, vc |-> TRUE, ce |-> TRUE]),
  A("canonFree", "string", [hc |-> TRUE, canon |-> Canon]),
  A("int", "integer", NoFlags), A("ints", "integer", Multi),
  A("dec", "decimal", NoFlags), A("decs", "decimal", Multi),
  A("bool", "boolean", NoFlags), A("bools", "boolean", Multi),
  A("bin", "binary", [ce |-> TRUE]), A("bins", "binary", [ce |-> TRUE, mv |-> TRUE]),
  A("when", "dateTime", NoFlags), A("whens", "dateTime", Multi),
  A("ext", "external", NoFlags), A("exts", "external", Multi),
  A("uri", "uri", NoFlags), A("scim", "scim", [refs |-> <<"User">>]),
  C("cx", NoFlags, TItem), C("cxs", Multi, TItem),
  C("bare", Multi, <<A("label", "string", NoFlags)>>)>>,
  <<[urn |-> "urn:verif:small:ext:1", attrs |-> <<A("extra", "string", NoFlags), C("group", Multi, TItem)>>],
    [urn |-> "urn:verif:small:Ext:2", attrs |-> <<A("other", "integer", NoFlags)>>]>>)

(* P: required x returned, at the top level, below a single and below a     *)
(* multi-valued complex attribute, and in an extension                      *)
PNames == <<"default", "always", "never", "request">>
PSet(p) == [i \in 1..4 |-> A(p \o PNames[i], "string", [ret |-> PNames[i]])]
           \o [i \in 1..4 |-> A(p \o "req_" \o PNames[i], "string", [ret |-> PNames[i], req |-> TRUE])]
P1S == Res1("Pre", PSet("t_") \o <<
  C("one", NoFlags, PSet("s_")), C("many", Multi, PSet("m_")), C("must", [mv |-> TRUE, req |-> TRUE], <<A("v", "string", NoFlags)>>),
  C("ask", [ret |-> "request"], <<A("v", "string", NoFlags), A("w", "string", [ret |-> "always"])>>),
  A("srv", "string", [req |-> TRUE, iss |-> "server"]), A("cli", "string", [req |-> TRUE, iss |-> "client"])>>,
  <<[urn |-> "urn:verif:small:ext:P", attrs |-> <<A("x_default", "string", NoFlags), A("x_req", "string", [req |-> TRUE]),
                                                 A("x_never", "string", [ret |-> "never"])>>]>>)

(* K: mutability x required, for patch and replace requests                 *)
KSub == <<A("value", "string", NoFlags), A("ro", "string", [mut |-> "readOnly"]), A("need", "string", [req |-> TRUE]),
          A("given", "string", [req |-> TRUE, iss |-> "server"]), A("primary", "boolean", NoFlags)>>
K1S == Res1("Mut", <<
  A("rw", "string", NoFlags), A("ro", "string", [mut |-> "readOnly"]), A("wo", "string", [mut |-> "writeOnly", ret |-> "never"]),
  A("im", "string", [mut |-> "immutable"]), A("need", "string", [req |-> TRUE]),
  A("tags", "string", Multi), A("needs", "string", [mv |-> TRUE, req |-> TRUE]), A("rank", "integer", NoFlags),
  C("cx", NoFlags, KSub), C("cxro", [mut |-> "readOnly"], KSub), C("cxneed", [req |-> TRUE], KSub),
  C("cxs", Multi, KSub), C("cxsro", [mv |-> TRUE, mut |-> "readOnly"], KSub)>>,
  <<[urn |-> "urn:verif:small:ext:K", attrs |-> <<A("erw", "string", NoFlags), A("ero", "string", [mut |-> "readOnly"]),
                                                 C("ecx", Multi, KSub)>>]>>)

(* two resources whose schemas overlap with those of T in one extension *)
L1S == Res1("Lea", <<A("name", "string", NoFlags), A("rank", "integer", NoFlags), A("pin", "string", [ret |-> "never"]),
                     C("mails", Multi, <<A("value", "string", NoFlags), A("primary", "boolean", NoFlags), A("type", "string", NoFlags)>>)>>,
            <<[urn |-> "urn:verif:small:ext:shared", attrs |-> <<A("team", "string", NoFlags)>>]>>)
L2S == Res1("Low", <<A("name", "string", NoFlags), A("rank", "integer", NoFlags), A("only", "string", NoFlags)>>,
            <<[urn |-> "urn:verif:small:ext:shared", attrs |-> <<A("team", "string", NoFlags)>>]>>)

(* two extensions and little else *)
D1S == Res1("Dec", <<A("str", "string", NoFlags)>>,
  <<[urn |-> "urn:verif:small:ext:1", attrs |-> <<A("extra", "string", NoFlags), C("group", Multi, <<A("value", "string", NoFlags)>>)>>],
    [urn |-> "urn:verif:small:Ext:2", attrs |-> <<A("other", "integer", NoFlags)>>]>>)

(* attributes with value processors of their own *)
XItem == <<A("value", "string", NoFlags), A("note", "string", [post |-> "mark"]), A("primary", "boolean", NoFlags)>>
X1S == Res1("Pro", <<
  A("mark", "string", [post |-> "mark"]), A("marks", "string", [mv |-> TRUE, post |-> "marks"]),
  A("noX", "string", [post |-> "noX"]), A("warnX", "string", [post |-> "warnX"]),
  C("cx", [post |-> "cxMark"], XItem), C("cxs", [mv |-> TRUE, post |-> "cxMark"], XItem),
  C("pre", [post |-> "cxPre"], XItem), C("pres", [mv |-> TRUE, post |-> "cxPre"], XItem)>>,
  <<[urn |-> "urn:verif:small:ext:X", attrs |-> <<A("xmark", "string", [post |-> "mark"]), C("xcxs", [mv |-> TRUE, post |-> "cxMark"], XItem)>>]>>)

SmallNames == {"T1", "P1", "K1", "L1", "L2", "D1", "X1"}
SmallS == TLCEval([n \in SmallNames |->
            CASE n = "T1" -> T1S [] n = "P1" -> P1S [] n = "K1" -> K1S [] n = "L1" -> L1S [] n = "L2" -> L2S [] n = "D1" -> D1S [] n = "X1" -> X1S])

(* texts whose lower case is worth computing once *)
AttrTexts(as) == UNION { {as[i].n} \cup { as[i].subs[j].n : j \in 1..Len(as[i].subs) } : i \in 1..Len(as) }
SchemaTexts(S) == {S.urn} \cup AttrTexts(S.attrs)
                  \cup UNION { {S.exts[i].urn} \cup AttrTexts(S.exts[i].attrs) : i \in 1..Len(S.exts) }
SmallTexts == UNION { SchemaTexts(SmallS[n]) : n \in SmallNames }
              \cup UNION { SchemaTexts(BuiltinS[n]) : n \in BuiltinNames }
=============================================================================

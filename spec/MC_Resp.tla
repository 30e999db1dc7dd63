------------------------------- MODULE MC_Resp ------------------------------
(* Responses with one resource, and error responses: status x location in   *)
(* header and body x stated type x contents x requested attributes.         *)
EXTENDS MC
VARIABLES part_, case_

A0 == "https://h/v2/Leas/1"
B0 == "https://h/v2/Leas/2"
MetaV(l, t) == IF l.k = "miss" /\ t.k = "miss" THEN <<>> ELSE One("meta", Pairs(<<<<"location", l>>, <<"resourceType", t>>>>))
Metas == { MetaV(l, t) : l \in {MISS, Str(A0), Str(B0), Str(""), NULL, IntV(1)}, t \in {MISS, Str("Lea"), Str("lea"), Str("User")} }
         \cup {One("META", Obj(One("LOCATION", Str(A0)))), One("meta", Str("x")), One("meta", NULL)}
Rest == {V \o W : V \in {<<>>, One("id", Str("1"))}, W \in {<<>>, One("name", Str("n")), One("pin", Str("p")), One("rank", Str("x"))}}
Headers == {NULL, EMPTY, Obj(One("Location", Str(A0))), Obj(One("Location", Str(""))), Obj(<<<<"ETag", Str("W/1")>>, <<"Location", Str(B0)>>>>), Obj(One("ETag", Str("W/1")))}
Checkers == {NULL, CheckerV(<<[schema |-> "", attr |-> "name", sub |-> ""]>>, "yes"), CheckerV(<<[schema |-> "", attr |-> "NAME", sub |-> ""]>>, "no"), CheckerV(<<>>, "no")}
Methods == {"get.dump", "put.dump", "post.dump", "patch.dump"}
Statuses == {200, 201, 204, 404}
BodyV(m, r) == ResOf("L1", r \o m)
Odd == {NULL, EMPTY, List(<<>>), Str(""), Str("x"), BoolV(FALSE)}

Call(op, st, b, h, c) == [op |-> op, st |-> st, b |-> b, h |-> h, c |-> c]
Errs == { Pairs(<<<<"schemas", Texts0(<<ErrorS.urn>>)>>, <<"status", s>>, <<"scimType", t>>, <<"detail", d>>>>) :
          s \in {MISS, Str("404"), Str("200"), Str("400"), Str("x"), IntV(404), NULL, Str("")}, t \in {MISS, Str("invalidPath"), Str("INVALIDPATH"), Str("zz")}, d \in {MISS, Str("d"), IntV(1)} }
Init == /\ part_ \in { <<"res", m, h>> : m \in Methods, h \in Headers } \cup {<<"err">>, <<"del">>}
        /\ case_ = NONE
Next ==
  /\ case_ = NONE /\ UNCHANGED part_
  /\ \/ /\ part_[1] = "res"
        /\ \/ \E m \in Metas, r \in Rest, st \in Statuses, c \in Checkers :
                 /\ Deep \/ st \in {200, 201} \/ c = NULL
                 /\ Deep \/ c = NULL \/ m = MetaV(Str(A0), Str("Lea"))
                 /\ case_' = Call(part_[2], st, BodyV(m, r), part_[3], c)
           \/ \E b \in Odd, st \in Statuses, c \in Checkers : case_' = Call(part_[2], st, b, part_[3], c)
     \/ /\ part_[1] = "err"
        /\ \E b \in Errs \cup {NULL, EMPTY, Str("x"), Obj(<<<<"schemas", Texts0(<<"urn:x">>)>>, <<"status", Str("404")>>>>)}, st \in {200, 299, 300, 400, 404, 599, 600} :
             case_' = Call("error.dump", st, b, NULL, NULL)
     \/ /\ part_[1] = "del"
        /\ \E h \in Headers, st \in Statuses : case_' = Call("delete.dump", st, NULL, h, NULL)
  /\ Emit(case_'.op, IF case_'.op = "error.dump" THEN [status |-> case_'.st, body |-> case_'.b, headers |-> case_'.h]
                     ELSE [schema |-> "L1", status |-> case_'.st, body |-> case_'.b, headers |-> case_'.h, c |-> case_'.c])
Spec == Init /\ [][Next]_<<part_, case_>>

Run(c) == CASE c.op \in {"get.dump", "put.dump"} -> DumpResource(L1S, FALSE, 200, c.st, c.b, c.h, RuleOf(c.c))
            [] c.op = "post.dump" -> PostDumpPlain(L1S, c.st, c.b, c.h, RuleOf(c.c))
            [] c.op = "patch.dump" -> PatchDump(L1S, c.st, c.b, c.h, c.c)
            [] c.op = "delete.dump" -> DeleteDump(c.st, c.h)
            [] c.op = "error.dump" -> ErrorDump(ErrorS, c.st, c.b, c.h)
Loc(h) == IF IsObj(h) /\ (\E i \in 1..Len(h.m) : h.m[i][1] = "Location") THEN (h.m[CHOOSE i \in 1..Len(h.m) : h.m[i][1] = "Location"][2]).s ELSE "none"
Want(c) == CASE c.op \in {"get.dump", "put.dump"} -> {200} [] c.op = "post.dump" -> {201} [] c.op = "patch.dump" -> {200, 204} [] c.op = "delete.dump" -> {204} [] OTHER -> 300..599
Laws == case_ # NONE =>
  LET c == case_
      x == TLCEval(Run(c))
      o == x.body
      bodiless == c.op = "delete.dump" \/ (c.op = "patch.dump" /\ c.st = 204) \/ (c.op = "post.dump" /\ (Falsy(c.b) \/ c.b = EMPTY))
  IN /\ (bodiless => o.k = "null")
     /\ (~bodiless => (o.k = "null") = (x.i # {}))
     \* the status is the one of the method
     /\ (x.i = {} /\ ~(c.op = "post.dump" /\ bodiless) => c.st \in Want(c))
     \* a released resource states its own type, holds nothing forbidden, and the location of the header
     /\ (o.k # "null" /\ c.op \notin {"error.dump"} =>
           /\ Get(o, Ref("", "meta", "resourceType")) \in {MISS, Str("Lea")}
           /\ Get(o, Ref("", "pin", "")).k = "miss"
           /\ (Loc(c.h) # "none" => Get(o, Ref("", "meta", "location")) = Str(Loc(c.h)))
           /\ (c.op = "post.dump" => Loc(c.h) # "none")
           /\ (IsRule(c.c) /\ c.c.inc = "no" /\ c.c.reps # <<>> => Blank(Get(o, Ref("", "name", "")))))
     /\ (o.k # "null" /\ c.op = "error.dump" => Get(o, Ref("", "status", "")) = Str(ToString(c.st)))
=============================================================================

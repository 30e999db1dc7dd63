-------------------------------- MODULE Patch -------------------------------
(* Patch requests: each operation against the resource schema R.            *)
EXTENDS Matching

RefOf(rep) == Ref(rep.schema, rep.attr, rep.sub)
ReadOnly(R, r) == LET d == Lookup(R, r)
                  IN d.d.mut = "readOnly" \/ (r.sub # "" /\ d.top.a.mut = "readOnly")
KnownTarget(R, path) == Lookup(R, RefOf(path.attr)).f
                        /\ (path.sub.attr = "" \/ Lookup(R, RefOf(path.sub)).f)

(* a value for one attribute *)
UpdateVal(R, r, v) ==
  LET d == Lookup(R, r).d
      x == AttrVal(d, v, "parse")
      items == IF d.mv THEN x.v.l ELSE <<x.v>>
      ro == { j \in 1..Len(d.subs) : d.subs[j].mut = "readOnly" }
      loc(i, j) == (IF d.mv THEN <<Idx(i)>> ELSE <<>>) \o <<d.subs[j].n>>
      hits == { q \in (1..Len(items)) \X ro : Get(items[q[1]], Sub1(d.subs[q[2]].n)).k # "miss" }
  IN IF ReadOnly(R, r) THEN Bad(304)
     ELSE IF x.i # {} \/ d.t # "complex" \/ x.v.k = "null" THEN x
     ELSE [v |-> x.v, i |-> { Iss(loc(q[1], q[2]), 304, TRUE) : q \in hits }]

(* a partial resource *)
ReadOnlyIn(R, o) ==
  LET T == Tops(R)
      given(v, top) == v.k # "miss" /\
                       ~(IsList(v) /\ top.a.mv /\ \A i \in 1..Len(v.l) : v.l[i].k = "miss")
  IN UNION {
       LET x == T[i]
       IN (IF x.a.mut = "readOnly" /\ Get(o, TopRef(x)).k # "miss"
           THEN Stop(LocOf(TopRef(x)), 304) ELSE {})
          \cup UNION { LET s == x.a.subs[j]
                       IN IF s.mut = "readOnly" /\ given(Get(o, SubRef(x, s)), x)
                          THEN Stop(LocOf(SubRef(x, s)), 304) ELSE {} : j \in 1..Len(x.a.subs) }
       : i \in 1..Len(T) }
PartialVal(R, v) ==
  LET x == Process(R, v, "parse")
      i1 == { y \in x.i : ~(y.loc = <<"schemas">> /\ y.code \in {27, 28, 29}) }
  IN IF x.v.k = "inv" THEN [v |-> INV, i |-> i1]
     ELSE [v |-> x.v, i |-> i1 \cup ReadOnlyIn(R, x.v)]

OpObj(op, path, v) == Obj(<<<<"op", op>>>> \o (IF path.k = "miss" THEN <<>> ELSE <<<<"path", path>>>>)
                          \o <<<<"value", v>>>>)
AddOrReplace(R, op, path, v) ==
  LET t == IF Unset(path) THEN PartialVal(R, v)
           ELSE IF IsNode(path.f) /\ path.sub.attr # "" /\ Lookup(R, RefOf(path.attr)).d.t = "complex"
                THEN UpdateVal(R, RefOf(path.sub), v)
           ELSE UpdateVal(R, RefOf(path.attr), v)
  IN IF ~Unset(path) /\ ~KnownTarget(R, path)
     THEN [v |-> INV, i |-> Stop(<<"path">>, 303)]
     ELSE [v |-> OpObj(op, path, t.v), i |-> At(<<"value">>, t.i)]
Remove(R, path) ==
  LET r == IF path.sub.attr = "" THEN RefOf(path.attr) ELSE RefOf(path.sub)
      d == Lookup(R, r).d
      keep == d.req /\ (path.sub.attr # "" \/ d.t # "complex")
  IN IF ~KnownTarget(R, path) THEN [v |-> INV, i |-> Stop(<<"path">>, 303)]
     ELSE [v |-> Obj(<<<<"op", Str("remove")>>, <<"path", path>>>>),
           i |-> (IF ReadOnly(R, r) THEN Warn(<<"path">>, 304) ELSE {})
                 \cup (IF keep THEN Warn(<<"path">>, 306) ELSE {})]

PatchOne(R, o) ==
  LET op == Get(o, Sub1("op"))
      path == Get(o, Sub1("path"))
      v == Get(o, Sub1("value"))
  IN IF op \in {Str("add"), Str("replace")} THEN AddOrReplace(R, op, path, v)
     ELSE IF Unset(op) THEN Ok(OpObj(op, path, v))
     ELSE IF Unset(path) THEN [v |-> OpObj(op, path, v), i |-> Stop(<<"path">>, 15)]
     ELSE Remove(R, path)

PatchParse(P, R, data) ==
  LET x == Process(P, data, "parse")
      ops == Get(x.v, Sub1("Operations"))
      ys == TLCEval([i \in 1..Len(ops.l) |->
              IF HasAt(x.i, <<"Operations", Idx(i)>>) THEN Ok(ops.l[i]) ELSE PatchOne(R, ops.l[i])])
  IN IF ~Proceed(x.i, <<"Operations">>) THEN x
     ELSE IF ~IsList(ops) THEN x
     ELSE [v |-> Set(x.v, Sub1("Operations"), List([i \in 1..Len(ys) |-> ys[i].v])),
           i |-> x.i \cup UNION { At(<<"Operations", Idx(i)>>, ys[i].i) : i \in 1..Len(ys) }]

(* required sub-attributes of the new items of a multi-valued attribute *)
ItemRule(a) ==
  [reps |-> <<>>, inc |-> "none",
   ign |-> LET s == SelectSeq(a.subs, LAMBDA d : d.req /\ d.iss = "server")
           IN [i \in 1..Len(s) |-> Sub1(s[i].n)]]
SubTops(a) == [i \in 1..Len(a.subs) |-> AttrOf(a.subs[i], "", FALSE)]
NewItems(a, v, loc, I) ==
  IF a.t # "complex" \/ ~a.mv \/ ~IsList(v) THEN {}
  ELSE UNION { IF ~IsObj(v.l[i]) \/ HasAt(I, loc \o <<Idx(i)>>) THEN {}
               ELSE At(loc \o <<Idx(i)>>, PresenceIn(ItemRule(a), SubTops(a), v.l[i], "REQUEST"))
               : i \in 1..Len(v.l) }
(* I: issues so far below "body" *)
NewItemsOf(R, o, i, I) ==
  LET loc == <<"Operations", Idx(i)>>
      vloc == loc \o <<"value">>
      op == Get(o, Sub1("op"))
      path == Get(o, Sub1("path"))
      v == Get(o, Sub1("value"))
      T == Tops(R)
      d == Lookup(R, IF path.sub.attr = "" THEN RefOf(path.attr) ELSE RefOf(path.sub))
  IN IF ~IsObj(o) \/ op = Str("remove")
        \/ ~(Proceed(I, loc \o <<"op">>) /\ Proceed(I, loc \o <<"path">>) /\ Proceed(I, vloc))
     THEN {}
     ELSE IF Unset(path) THEN
       UNION { NewItems(T[t].a, Get(v, TopRef(T[t])), vloc \o LocOf(TopRef(T[t])), I)
               : t \in 1..Len(T) }
     ELSE IF d.f THEN NewItems(d.d, v, vloc, I) ELSE {}
=============================================================================

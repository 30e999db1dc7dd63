------------------------------ MODULE Container -----------------------------
(* Resource data: a map with case-insensitive names; sub-attributes of an   *)
(* object or of every item of a list of objects; attributes of an extension *)
(* live in an object under the extension's identifier.                      *)
EXTENDS Refs

RECURSIVE KeyAt(_, _, _)
KeyAt(m, low, i) == IF i > Len(m) THEN 0
                    ELSE IF Lower(m[i][1]) = low THEN i ELSE KeyAt(m, low, i + 1)
KeyPos(m, name) == KeyAt(m, Lower(name), 1)
DropAt(m, i) == SubSeq(m, 1, i - 1) \o SubSeq(m, i + 1, Len(m))
PutAt(m, i, v) == [m EXCEPT ![i] = <<m[i][1], v>>]
Put(m, name, v) == LET i == KeyPos(m, name)
                   IN IF i = 0 THEN Append(m, <<name, v>>) ELSE PutAt(m, i, v)
Sub1(name) == Ref("", name, "")
Inner(r) == Ref("", r.attr, r.sub)

(* plain data -> resource data: of keys that differ only in case the first  *)
(* spelling and the last value stay                                         *)
RECURSIVE Wrap(_), WrapPairs(_, _, _)
WrapPairs(m, i, acc) ==
  IF i > Len(m) THEN acc
  ELSE WrapPairs(m, i + 1, Put(acc, m[i][1], Wrap(m[i][2])))
Wrap(v) ==
  IF v.k = "obj" THEN Obj(WrapPairs(v.m, 1, <<>>))
  ELSE IF v.k = "list" THEN
    List([i \in 1..Len(v.l) |-> IF v.l[i].k = "obj" THEN Wrap(v.l[i]) ELSE v.l[i]])
  ELSE v

RECURSIVE Get(_, _)
Get(o, r) ==
  LET e == IF r.schema = "" THEN 0 ELSE KeyPos(o.m, r.schema)
      a == KeyPos(o.m, r.attr)
  IN IF e # 0 THEN IF IsObj(o.m[e][2]) THEN Get(o.m[e][2], Inner(r)) ELSE MISS
     ELSE IF r.ext \/ a = 0 THEN MISS
     ELSE IF r.sub = "" THEN o.m[a][2]
     ELSE LET v == o.m[a][2]
          IN IF IsObj(v) THEN Get(v, Sub1(r.sub))
             ELSE IF IsList(v) THEN
               List([i \in 1..Len(v.l) |->
                      IF IsObj(v.l[i]) THEN Get(v.l[i], Sub1(r.sub)) ELSE MISS])
             ELSE MISS

(* an assignment that cannot be made leaves the data alone *)
RECURSIVE Refuses(_, _, _)
Refuses(o, r, v) ==
  LET a == KeyPos(o.m, r.attr)
      e == KeyPos(o.m, r.schema)
  IN IF r.ext THEN e # 0 /\ Refuses(o.m[e][2], Inner(r), v)
     ELSE r.sub # "" /\ a # 0 /\
       LET c == o.m[a][2]
       IN ~( \/ IsObj(c)
             \/ IsList(c) /\ IsList(v) /\ c.l # <<>> /\ \A i \in 1..Len(c.l) : IsObj(c.l[i]) )

RECURSIVE Set(_, _, _)
Set(o, r, v) ==
  IF r.ext THEN
    LET e == KeyPos(o.m, r.schema)
        cur == IF e = 0 THEN EMPTY ELSE o.m[e][2]
    IN Obj(Put(o.m, r.schema, Set(cur, Inner(r), v)))
  ELSE IF r.sub = "" THEN Obj(Put(o.m, r.attr, v))
  ELSE IF Refuses(o, r, v) THEN o
  ELSE
    LET a == KeyPos(o.m, r.attr)
        cur == IF a # 0 THEN o.m[a][2] ELSE IF IsList(v) THEN List(<<>>) ELSE EMPTY
        n == IF IsList(v) THEN Max(Len(v.l), Len(cur.l)) ELSE 0
        item(i) == IF i <= Len(cur.l) THEN cur.l[i] ELSE EMPTY
    IN Obj(Put(o.m, r.attr,
         IF IsList(v)
         THEN List([i \in 1..n |->
                 IF i <= Len(v.l) /\ v.l[i].k # "miss" THEN Set(item(i), Sub1(r.sub), v.l[i])
                 ELSE item(i)])
         ELSE Set(cur, Sub1(r.sub), v)))

RECURSIVE Del(_, _)
Del(o, r) ==
  LET e == IF r.schema = "" THEN 0 ELSE KeyPos(o.m, r.schema)
      a == KeyPos(o.m, r.attr)
  IN IF e # 0 THEN IF IsObj(o.m[e][2]) THEN Obj(PutAt(o.m, e, Del(o.m[e][2], Inner(r)))) ELSE o
     ELSE IF r.ext \/ a = 0 THEN o
     ELSE IF r.sub = "" THEN Obj(DropAt(o.m, a))
     ELSE LET v == o.m[a][2]
          IN IF IsObj(v) THEN Obj(PutAt(o.m, a, Del(v, Sub1(r.sub))))
             ELSE IF IsList(v) THEN
               Obj(PutAt(o.m, a, List([i \in 1..Len(v.l) |->
                      IF IsObj(v.l[i]) THEN Del(v.l[i], Sub1(r.sub)) ELSE v.l[i]])))
             ELSE o

(* equality of data: names ignoring case, numbers by value *)
RECURSIVE DataEq(_, _)
DataEq(a, b) ==
  IF a.k \in {"bool", "int", "flt"} /\ b.k \in {"bool", "int", "flt"} THEN NumEq(a, b)
  ELSE IF a.k # b.k THEN FALSE
  ELSE IF a.k = "list" THEN
    Len(a.l) = Len(b.l) /\ \A i \in 1..Len(a.l) : DataEq(a.l[i], b.l[i])
  ELSE IF a.k = "obj" THEN
    /\ Len(a.m) = Len(b.m)
    /\ \A i \in 1..Len(a.m) :
         LET j == KeyPos(b.m, a.m[i][1]) IN j # 0 /\ DataEq(a.m[i][2], b.m[j][2])
  ELSE a = b
=============================================================================

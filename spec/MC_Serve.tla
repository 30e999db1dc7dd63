------------------------------ MODULE MC_Serve ------------------------------
(* Exchanges: stores of up to three resources, queries for them in a query  *)
(* string or a search request, and the answer of an honest server, step by  *)
(* step: the request is read, the answer is built, the answer is checked.   *)
EXTENDS MC, Serve
VARIABLES part_, case_

SH == "urn:verif:small:ext:shared"
Item(n, i, ps) == Pairs(<<<<"schemas", Texts0(<<Ur(n)>>)>>, <<"id", Str(ToString(i))>>>> \o ps)
Kinds1 == {<<"L1", <<>>>>, <<"L1", One("name", Str("b")) \o One("rank", IntV(3))>>, <<"L2", One("name", Str("A"))>>,
           <<"L2", One("name", Str("c")) \o One("rank", IntV(1)) \o One("only", Str("o"))>>, <<"L1", One("rank", IntV(2))>>}
Stores == UpTo(Kinds1, 3)
Fs == {MISS, Str("name pr"), Str("name gt \"A\" or rank gt 1"), Str("not (rank eq 3)"), Str("(name pr")}
SBs == {MISS, Str("name"), Str("RANK"), Str("a b")}
SOs == {MISS, Str("ascending"), Str("descending")}
CNs == {MISS, IntV(0), IntV(-2), IntV(1), IntV(2), Str("2"), Str("x")}
SIs == {MISS, IntV(2), IntV(0), IntV(-2), Str("3")}
ATs == {<<>>, One("attributes", Texts0(<<"name", "rank", "only">>)), One("excludeAttributes", Texts0(<<"pin">>)),
        One("attributes", Texts0(<<"name">>)), One("excludeAttributes", Texts0(<<"rank">>))}
P(f, sb, so, cn, si) == <<<<"filter", f>>, <<"sortBy", sb>>, <<"sortOrder", so>>, <<"count", cn>>, <<"startIndex", si>>>>
NoText(q) == \A i \in 1..Len(q) : q[i][1] \in {"count", "startIndex"} => q[i][2].k # "str"
Queries ==
  { P(f, sb, so, MISS, MISS) : f \in Fs, sb \in SBs, so \in SOs } \cup { P(f, sb, so, cn, si) : f \in {MISS, Str("name pr")}, sb \in {MISS, Str("name")}, so \in {MISS, Str("descending")}, cn \in CNs, si \in SIs }
Asking == { <<"root", q, <<>>>> : q \in Queries } \cup { <<"search", q, <<>>>> : q \in { x \in Queries : NoText(x) } }
          \cup { <<k, P(f, MISS, MISS, MISS, MISS), x>> : k \in {"root", "search"}, f \in {MISS, Str("rank lt 3")}, x \in ATs }

ReqOf(q) == LET o == Pairs(q[2] \o q[3])
            IN IF q[1] = "root" THEN [body |-> NULL, qs |-> o]
               ELSE [body |-> Obj(<<<<"schemas", Texts0(<<SearchS.urn>>)>>>> \o o.m), qs |-> NULL]
Allowed == <<"L1", "L2">>
Case(q, st) == [raw |-> Len(st) = 2, kind |-> q[1], schemas |-> Allowed, req |-> ReqOf(q), items |-> [i \in 1..Len(st) |-> Item(st[i][1], i, st[i][2])], of |-> [i \in 1..Len(st) |-> st[i][1]]]
Read(a) == ReadRequest(a.kind, <<L1S, L2S>>, a.req.body, a.req.qs)

Init == part_ \in Asking /\ case_ = NONE
Next == /\ case_ = NONE /\ UNCHANGED part_
        /\ \E st \in Stores :
             /\ Deep \/ Len(st) < 3 \/ (part_[2][2][2] = Str("name") /\ (part_[2][4][2] = IntV(2) \/ part_[2][5][2].k = "miss"))
             /\ case_' = Case(part_, st)
        /\ Emit("answer", case_')
Spec == Init /\ [][Next]_<<part_, case_>>

Laws == case_ # NONE =>
  LET a == case_
      x == TLCEval(Read(a))
      q == x.q
      Ss == [i \in 1..Len(a.of) |-> SmallS[a.of[i]]]
      all == TLCEval(HonestItems(q, a.items, Ss))
      body == HonestBody(q, all)
      sent == Get(body, Sub1("Resources")).l
      y == TLCEval(Answered(a.kind, <<L1S, L2S>>, 200, body, NULL, q))
      has(r, n) == ~Blank(Get(r, Sub1(n)))
      spare(r) == \/ part_[3] = One("attributes", Texts0(<<"name">>)) /\ (has(r, "rank") \/ has(r, "only"))
                  \/ part_[3] = One("excludeAttributes", Texts0(<<"rank">>)) /\ has(r, "rank")
      bad == \E i \in 1..5 : part_[2][i][2] \in {Str("(name pr"), Str("a b"), Str("x")}
  IN /\ (x.i # {}) = bad
     \* an honest answer is accepted unless it carries what was not asked for
     /\ (x.i = {} => (y.i = {}) = (\A i \in 1..Len(sent) : ~spare(sent[i])))
     /\ (x.i = {} /\ y.i = {} => y.body.k # "null" /\ Len(Get(y.body, Sub1("Resources")).l) = Len(sent))
     \* the page is a piece of the whole answer, never longer than asked for
     /\ (x.i = {} => /\ (q.count # -1 => Len(sent) <= AtLeast(0, q.count))
                     /\ \A i \in 1..Len(sent) : sent[i] = all[i + (IF q.start < 1 \/ q.count = -1 THEN 1 ELSE q.start) - 1]
                     /\ (q.count = -1 => sent = all))
     \* dropping a resource that fits from an unpaged answer, adding one that does not, or swapping two that are out of order is noticed
     /\ (x.i = {} /\ y.i = {} /\ q.f.k = "filter" =>
           \A i \in 1..Len(a.items) :
             LET b == Obj(<<<<"schemas", Texts0(<<ListS.urn>>)>>, <<"totalResults", IntV(1)>>, <<"Resources", List(<<a.items[i]>>)>>>>)
                 z == Answered(a.kind, <<L1S, L2S>>, 200, b, NULL, [q EXCEPT !.count = -1, !.c = NULL])
             IN (z.i = {}) = (\E j \in 1..Len(all) : all[j] = a.items[i]))
=============================================================================

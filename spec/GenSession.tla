------------------------------ MODULE GenSession ------------------------------
(* Every history of up to MaxOps operations of a family over small documents. *)
EXTENDS Session, CSV, Json, TLC

CONSTANTS Family, MaxOps, OutFile

N(d, k, n, a, t) == [d |-> d, k |-> k, n |-> S(n), a |-> {<<S(x[1]), S(x[2])>> : x \in a}, t |-> S(t)]
E(d, n) == N(d, "el", n, {}, "")
V(d, n) == N(d, "void", n, {<<"x", "1">>}, "")
T(d) == N(d, "text", "", {}, "t")

Docs == CASE Family = "interleave" -> {<<E(0, "a"), E(1, "b"), V(1, "a"), T(0)>>, <<T(0), E(0, "a"), V(1, "b")>>}
          [] Family = "life" -> {<<E(0, "a"), V(1, "a"), E(0, "b"), T(1)>>}
          [] Family = "hops" -> {<<E(0, "a"), E(1, "b"), V(1, "a"), T(0), E(0, "a"), T(1)>>}
          [] Family = "copies" -> {<<E(0, "a"), V(1, "a"), E(0, "b")>>}
          [] Family = "sub" -> {<<E(0, "a"), E(1, "b"), E(2, "a"), T(3), V(1, "a")>>, <<E(0, "a"), T(1), V(0, "b")>>}
          [] Family = "nest" -> {<<E(0, "a"), E(1, "a"), E(2, "a"), V(3, "a"), T(1), E(0, "b")>>}

FTag == Tag(P("str", S("a")))
FAttr == AttrName(P("str", S("x")))
None == Yes

Op(o, h, m, f) == [o |-> o, h |-> h, m |-> m, f |-> f]
Simple(o, hs) == {Op(o, h, "", Strict) : h \in DOMAIN hs}

VARIABLE hist

\* what may be done next, per family
Offers(st) ==
  CASE Family = "interleave" ->
         Simple("next", st.iters)
         \cup (IF Len(st.queries) < 3 THEN {Op("new", 1, m, Strict) : m \in {"strict", "whole"}} \cup Simple("copy", st.queries) ELSE {})
         \cup Simple("run", st.queries)
         \cup {Op("refine", h, "", FTag) : h \in {x \in DOMAIN st.queries : st.queries[x].fs = <<>>}}
    [] Family = "life" ->
         (IF Len(st.queries) < 2 THEN {Op("new", 1, m, Strict) : m \in {"strict", "recursive", "whole"}} ELSE {})
         \cup (IF Len(st.queries) < 3 THEN Simple("copy", st.queries) ELSE {})
         \cup {Op("refine", h, "", f) : h \in DOMAIN st.queries, f \in {Strict, Recursive, FTag, FAttr}}
         \cup Simple("run", st.queries) \cup Simple("first", st.queries) \cup Simple("next", st.iters)
         \cup Simple("dropq", st.queries) \cup Simple("dropi", st.iters)
    [] Family = "hops" ->
         Simple("next", st.iters) \cup {Op("hop", h, m, Strict) : h \in DOMAIN st.iters, m \in {"0", "1", "2"}}
         \cup (IF Len(st.queries) < 2 THEN {Op("new", 1, m, Strict) : m \in {"strict", "whole"}} \cup Simple("copy", st.queries) ELSE {})
         \cup Simple("run", st.queries)
         \cup {Op("refine", h, "", FTag) : h \in {x \in DOMAIN st.queries : st.queries[x].fs = <<>>}}
    [] Family = "copies" ->
         (IF Len(st.soups) < 3 THEN Simple("dup", st.soups) ELSE {})
         \cup (IF Len(st.queries) < 2 THEN {Op("new", h, m, Strict) : h \in DOMAIN st.soups, m \in {"strict", "recursive"}} ELSE {})
         \cup Simple("run", st.queries) \cup Simple("next", st.iters) \cup Simple("dropi", st.iters) \cup Simple("drops", st.soups)
         \cup (IF Len(st.soups) < 3 THEN {op \in Simple("sub", st.iters) : st.iters[op.h].last # 0} ELSE {})
         \cup {Op("stir", 1, m, Strict) : m \in IF Len(hist) = 3 THEN {"drop", "forget", "panic"} ELSE {}}
         \cup {Op("crowd", 1, m, Strict) : m \in IF Len(hist) = 2 THEN {"3"} ELSE {}}
    [] Family \in {"sub", "nest"} ->
         (IF Len(SelectSeq(st.queries, LAMBDA q : q.live)) < 1 /\ Len(st.queries) < 3
          THEN {Op("new", h, m, Strict) : h \in DOMAIN st.soups, m \in {"strict", "whole"}} ELSE {})
         \cup (IF Family = "sub" THEN {Op("refine", h, "", FTag) : h \in {x \in DOMAIN st.queries : st.queries[x].fs = <<>>}} ELSE {})
         \cup Simple("run", st.queries) \cup Simple("next", st.iters)
         \cup (IF Len(st.soups) < 4 THEN {op \in Simple("sub", st.iters) : st.iters[op.h].last # 0 \/ Family = "sub"} ELSE {})
         \cup Simple("dropi", st.iters) \cup (IF Len(hist) = 4 THEN Simple("dive", st.soups) ELSE {}) \cup (IF Len(st.soups) > 1 THEN {Op("drops", 1, "", Strict)} ELSE {})

VARIABLES doc, st, outs
vars == <<doc, st, hist, outs>>

Init == doc \in Docs /\ st = Start(doc) /\ hist = <<>> /\ outs = <<>>
Step(op) ==
  /\ Enabled(st, op)
  /\ LET r == Do(doc, st, op)
     IN st' = r.st /\ hist' = Append(hist, op) /\ outs' = Append(outs, r.out)
  /\ UNCHANGED doc
Next == Len(hist) < MaxOps /\ \E op \in Offers(st) : Step(op)
Spec == Init /\ [][Next]_vars

\* ---- independence: every iterator has delivered what it would deliver alone ----------------
Handles == {x \in DOMAIN hist : hist[x].o = "run"}
\* the k-th iterator created, and what it was asked to deliver
NextsOf(k) == SelectSeq([j \in DOMAIN hist |-> j], LAMBDA j : hist[j].o \in {"next", "hop"} /\ hist[j].h = k)
Pad(s, n) == IF n <= Len(s) THEN s[n] ELSE 0
\* how many items an operation takes
Takes(op) == IF op.o = "next" THEN 1 ELSE 1 + Amount(op.m)
Alone == \A k \in DOMAIN st.iters :
           LET ns == NextsOf(k)
               x == st.iters[k]
               full == SelectSeq(Delivers(doc, st.soups[x.soup].roots, x.it.rec), LAMBDA n : Satisfies(doc[n], x.fs))
               taken(j) == FoldLeft(LAMBDA a, i : a + Takes(hist[ns[i]]), 0, [i \in 1..j |-> i])
           IN \A j \in DOMAIN ns : outs[ns[j]] = Pad(full, taken(j))
\* nothing of another document, nothing of the node itself, is ever delivered
Inside == \A k \in DOMAIN st.iters :
            LET x == st.iters[k]
                rs == st.soups[x.soup].roots
            IN x.last # 0 => \E r \in ToSet(rs) : x.last \in r..EndOf(doc, r)
NoWrites == \A s \in DOMAIN st.soups : st.soups[s].roots = <<>> \/ st.soups[s].roots = Start(doc).soups[1].roots \/ \E n \in DOMAIN doc : st.soups[s].roots = Children(doc, n)

Emit == (Len(hist) = MaxOps \/ (\A op \in Offers(st) : ~Enabled(st, op))) =>
          CSVWrite("%1$s", <<ToJson([op |-> "session", doc |-> doc, steps |-> hist, want |-> [outs |-> outs]])>>, OutFile)
=============================================================================

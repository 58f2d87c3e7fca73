------------------------------- MODULE Session -------------------------------
(* Histories: several documents, queries and iterators alive at once.         *)
(* A state is [soups, queries, iters]:                                        *)
(*   soups    sequence of [live, roots]          a document, by its top-level nodes *)
(*   queries  sequence of [live, soup, rec, fs]                               *)
(*   iters    sequence of [live, soup, it, fs, last]                          *)
(* Do(doc, st, op) performs one operation and gives [st, out].  Handles are   *)
(* numbered in the order of creation and never reused.                        *)
EXTENDS Query, TLC

\* how many filters one query may collect (the harness builds the types for this many)
MaxFilters == 3

Start(doc) == [soups |-> <<[live |-> TRUE, roots |-> Roots(doc)]>>, queries |-> <<>>, iters |-> <<>>]

Live(hs, x) == x \in DOMAIN hs /\ hs[x].live
Borrowed(st, s) == (\E q \in DOMAIN st.queries : st.queries[q].live /\ st.queries[q].soup = s)
                   \/ (\E x \in DOMAIN st.iters : st.iters[x].live /\ st.iters[x].soup = s)

\* operations
\*   new s m     a query over document s: m = "whole" (the document itself), "strict", "recursive"
\*   copy q      duplicate an unfiltered query
\*   refine q f  consume query q, add a filter or change the mode
\*   run q       consume query q, start an iterator
\*   first q     consume query q, deliver its first result only
\*   next x      advance iterator x
\*   hop x m     advance iterator x past m items (m a digit): its nth(m)
\*   dup s       duplicate document s
\*   stir s m    many passing searches of document s, abandoned part-way as m says (dropped, forgotten
\*               without being dropped, or ended by a panic of a user-defined pattern)
\*   crowd s m   m times a hundred (m a digit) searches of document s, all of them under way from here on, each
\*               of them advanced three times in turn; delivers what every one of them delivers third
\*   dive s      the first top-level node of document s, the first of the search inside that one, and so on, all
\*               of these searches under way at once; delivers the last node so found
\*   sub x       search inside the last result of x: a new document (an empty one if there was none)
\*   dropq dropi drops
Enabled(st, op) ==
  CASE op.o = "new" -> Live(st.soups, op.h)
    [] op.o = "copy" -> Live(st.queries, op.h) /\ st.queries[op.h].fs = <<>>
    [] op.o = "refine" -> Live(st.queries, op.h) /\ (IsMode(op.f) \/ Len(st.queries[op.h].fs) < MaxFilters)
    [] op.o \in {"run", "first", "dropq"} -> Live(st.queries, op.h)
    [] op.o \in {"next", "hop"} -> Live(st.iters, op.h)
    [] op.o \in {"dup", "stir", "crowd", "dive"} -> Live(st.soups, op.h)
    [] op.o = "sub" -> Live(st.iters, op.h)
    [] op.o = "dropi" -> Live(st.iters, op.h)
    [] op.o = "drops" -> Live(st.soups, op.h) /\ ~Borrowed(st, op.h)

Amount(m) == CHOOSE n \in 0..9 : ToString(n) = m
RECURSIVE Hop(_, _, _)
Hop(doc, qi, n) == LET r == QNext(doc, qi) IN IF n = 0 \/ r.item = 0 THEN r ELSE Hop(doc, r.qi, n - 1)

RECURSIVE Dive(_, _)
Dive(doc, roots) == IF roots = <<>> THEN 0 ELSE LET c == Children(doc, roots[1]) IN IF c = <<>> THEN roots[1] ELSE Dive(doc, c)

Do(doc, st, op) ==
  CASE op.o = "new" -> [st |-> [st EXCEPT !.queries = Append(@, [live |-> TRUE, soup |-> op.h, rec |-> op.m # "strict", fs |-> <<>>])], out |-> 0]
    [] op.o = "copy" -> [st |-> [st EXCEPT !.queries = Append(@, @[op.h])], out |-> 0]
    [] op.o = "refine" ->
         LET q == st.queries[op.h]
             b == Build1([rec |-> q.rec, fs |-> q.fs], op.f)
         IN [st |-> [st EXCEPT !.queries[op.h] = [q EXCEPT !.rec = b.rec, !.fs = b.fs]], out |-> 0]
    [] op.o = "run" ->
         LET q == st.queries[op.h]
         IN [st |-> [st EXCEPT !.queries[op.h].live = FALSE,
                               !.iters = Append(@, [live |-> TRUE, soup |-> q.soup, fs |-> q.fs, last |-> 0,
                                                    it |-> IterStart(st.soups[q.soup].roots, q.rec)])],
             out |-> 0]
    [] op.o = "first" ->
         LET q == st.queries[op.h]
         IN [st |-> [st EXCEPT !.queries[op.h].live = FALSE],
             out |-> QNext(doc, QStart(st.soups[q.soup].roots, q)).item]
    [] op.o \in {"next", "hop"} ->
         LET x == st.iters[op.h]
             r == Hop(doc, [it |-> x.it, fs |-> x.fs], IF op.o = "next" THEN 0 ELSE Amount(op.m))
         IN [st |-> [st EXCEPT !.iters[op.h] = [x EXCEPT !.it = r.qi.it, !.last = IF r.item = 0 THEN @ ELSE r.item]], out |-> r.item]
    [] op.o = "sub" ->
         LET l == st.iters[op.h].last
         IN [st |-> [st EXCEPT !.soups = Append(@, [live |-> TRUE, roots |-> IF l = 0 THEN <<>> ELSE Children(doc, l)])], out |-> 0]
    [] op.o = "dup" -> [st |-> [st EXCEPT !.soups = Append(@, @[op.h])], out |-> 0]
    [] op.o = "crowd" -> [st |-> st, out |-> Hop(doc, QStart(st.soups[op.h].roots, Fresh), 2).item]
    [] op.o = "dive" -> [st |-> st, out |-> Dive(doc, st.soups[op.h].roots)]
    [] op.o = "stir" -> [st |-> st, out |-> 0]
    [] op.o = "dropq" -> [st |-> [st EXCEPT !.queries[op.h].live = FALSE], out |-> 0]
    [] op.o = "dropi" -> [st |-> [st EXCEPT !.iters[op.h].live = FALSE], out |-> 0]
    [] op.o = "drops" -> [st |-> [st EXCEPT !.soups[op.h].live = FALSE], out |-> 0]
=============================================================================

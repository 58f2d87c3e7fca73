------------------------------ MODULE GenConsume ------------------------------
(* Every program of up to MaxOps consuming calls on every iterator of small   *)
(* documents.  Beside the declarative remainder, the iterator machine of      *)
(* Traverse and Query is driven by next() alone: both must stay in step.      *)
EXTENDS Consume, CSV, Json, TLC

CONSTANTS Family, MaxOps, OutFile

N(d, k, n, a, t) == [d |-> d, k |-> k, n |-> S(n), a |-> {<<S(x[1]), S(x[2])>> : x \in a}, t |-> S(t)]
E(d, n) == N(d, "el", n, {}, "")
X(d, n) == N(d, "el", n, {<<"x", "1">>}, "")
T(d) == N(d, "text", "", {}, "t")

Docs == CASE Family = "document" -> {<<>>, <<X(0, "a")>>, <<E(0, "a"), X(1, "a"), T(1), X(0, "b"), E(1, "a"), X(0, "a")>>,
                                     <<T(0), X(0, "a"), E(1, "b"), X(2, "a"), T(3), X(1, "a"), T(0), E(0, "b"), X(1, "b")>>}
          [] Family = "node" -> {<<E(0, "a"), X(1, "a"), T(1), E(1, "a"), T(2), E(2, "b"), E(1, "b"), X(0, "a"), T(1)>>}

Sources(doc) == SetToSeq(IF Family = "document" THEN DocSources ELSE {s \in NodeSources(doc) : s.n \in {1, 2, 4, 9}})

\* one iterator being consumed: what is left declaratively, the machine, what it has put out
VARIABLES doc, prog, its, over
vars == <<doc, prog, its, over>>

Machine(src) == CASE src.s = "desc" -> [it |-> IterStart(<<src.n>>, TRUE), fs |-> <<>>]
                  [] src.s \in {"kids", "each"} -> [it |-> IterStart(Children(doc, src.n), FALSE), fs |-> <<>>]
                  [] OTHER -> QStart(Roots(doc), QueryOf(src.s))
RECURSIVE Stepped(_, _)
Stepped(qi, n) == IF n = 0 THEN qi ELSE Stepped(QNext(doc, qi).qi, n - 1)

Init == /\ doc \in Docs /\ prog = <<>> /\ over = FALSE
        /\ its = [j \in DOMAIN Sources(doc) |-> LET s == Sources(doc)[j] IN [src |-> s, rem |-> All(doc, s), qi |-> Machine(s), outs |-> <<>>]]

Step(op) ==
  /\ ~over /\ Len(prog) < MaxOps
  /\ prog' = Append(prog, op)
  /\ over' = (op \in Ending)
  /\ its' = [j \in DOMAIN its |-> LET x == its[j]
                                      r == Apply(x.rem, op)
                                  IN [x EXCEPT !.rem = r.rem, !.outs = Append(@, r.out), !.qi = Stepped(x.qi, Len(x.rem) - Len(r.rem))]]
  /\ UNCHANGED doc
Next == \E op \in Going \cup Ending : Step(op)
Spec == Init /\ [][Next]_vars

\* the machine has exactly the remainder left to deliver
InStep == \A j \in DOMAIN its : QDrain(doc, its[j].qi) = its[j].rem
\* what is left is always a final part of the whole
Suffix == \A j \in DOMAIN its : LET a == All(doc, its[j].src) IN its[j].rem = Drop(a, Len(a) - Len(its[j].rem))

Emit == (over \/ Len(prog) = MaxOps) =>
          CSVWrite("%1$s", <<ToJson([op |-> "consume", doc |-> doc, steps |-> prog, sources |-> [j \in DOMAIN its |-> its[j].src],
                                     want |-> [outs |-> [j \in DOMAIN its |-> its[j].outs]]])>>, OutFile)
=============================================================================

----------------------------- MODULE TraceTotal -----------------------------
(* Validates recorded runs of all parsers on one input, and of every kind of    *)
(* search on what they made.                                                    *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS TraceFile, Lanes
P == INSTANCE Total WITH MaxInput <- 0, parser <- "", phase <- "", unread <- 0, made <- 0, unseen <- 0
Trace == ndJsonDeserialize(TraceFile)

VARIABLES line, verdict
vars == <<line, verdict>>

Finished(p, g) ==
  /\ g.end \in P!Ends(p)
  /\ g.end = "document" => /\ g.iter = g.nodes /\ g.below = g.nodes /\ g.strict = g.roots
                           /\ g.attributed <= g.named /\ g.named <= g.nodes /\ g.never = 0
                           /\ g.nodes > 0 => g.inner < g.nodes
                           /\ p = "lenient" => g.named >= 1
Fine(rec) ==
  /\ "panic" \notin DOMAIN rec.got
  /\ IF rec.op = "pattern" THEN Finished(rec.parser, rec.got)
     ELSE \A p \in DOMAIN rec.got : p \in P!Parsers /\ Finished(p, rec.got[p])
Consume(j) == verdict' = (IF Fine(Trace[j]) THEN "returned" ELSE "differs") /\ line' = j
Init == line \in {-k : k \in 1..Lanes} /\ verdict = "start"
Next == LET j == IF line < 0 THEN -line ELSE line + Lanes IN j <= Len(Trace) /\ Consume(j)
Spec == Init /\ [][Next]_vars
Conforms == verdict # "differs"
=============================================================================

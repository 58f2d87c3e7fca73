------------------------------ MODULE TraceParser ------------------------------
(* Recorded outcomes of building the same document in every way there is: by  *)
(* the named constructor, by the generic one with the built-in parser, and by *)
(* calling that parser.  They are one and the same outcome.                   *)
EXTENDS Naturals, Sequences, Json, TLC

CONSTANTS TraceFile, Lanes
Trace == ndJsonDeserialize(TraceFile)

OK(r) == /\ "ways" \in DOMAIN r.got
         /\ Len(r.got.ways) >= 3
         /\ \A w \in DOMAIN r.got.ways : r.got.ways[w].out = r.got.ways[1].out

VARIABLE line
Init == line \in 1..(IF Lanes < Len(Trace) THEN Lanes ELSE Len(Trace))
Next == line + Lanes <= Len(Trace) /\ line' = line + Lanes
Spec == Init /\ [][Next]_line
Conforms == OK(Trace[line])
=============================================================================

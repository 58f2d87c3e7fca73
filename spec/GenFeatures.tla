----------------------------- MODULE GenFeatures -----------------------------
(* Every way of asking for features, one at a time.                             *)
EXTENDS Features, Json, CSV

CONSTANTS OutFile
VARIABLES asked
vars == <<asked>>
Init == asked = {}
Ask(f) == f \notin asked /\ asked' = asked \cup {f}
Next == \E f \in Documented : Ask(f)
Spec == Init /\ [][Next]_vars

\* asking for more never takes anything away
Grows == \A f \in Documented : \A op \in Operations : Offers(Enabled(asked), op, {}) => Offers(Enabled(asked \cup {f}), op, {})
\* what one operation offers is decided by what it needs and nothing else
Independent == \A op \in Operations : Offers(Enabled(asked), op, {}) <=> \A f \in NeededBy(op) : f \in Enabled(asked)
\* the default has everything
Default == "everything" \in asked => \A op \in Operations : Offers(Enabled(asked), op, {"regex"})
\* one spelling of what is asked for: nothing that is implied anyway
Minimal == \A f \in asked : f \notin Closure(asked \ {f})
Emit == Minimal => CSVWrite("%1$s", <<ToJson([asked |-> asked, enabled |-> Enabled(asked), offers |-> {op \in Operations : Offers(Enabled(asked), op, {})}])>>, OutFile)
==============================================================================

------------------------------- MODULE GenParser -------------------------------
(* Building documents with a user-supplied parser.  A parser may itself build *)
(* documents before it answers, on its own thread or on another, and it may   *)
(* panic; building a document is one call: the input goes in as it is, what   *)
(* comes out is the result, whatever else is being built or has gone wrong.   *)
EXTENDS Doc, CSV, Json, TLC

CONSTANTS Family, MaxBuilds, MaxNest, OutFile

D(ds) == [j \in DOMAIN ds |-> [d |-> ds[j], k |-> "el", n |-> S("a"), a |-> {}, t |-> <<>>]]
Made(ds) == [ok |-> TRUE, doc |-> D(ds), code |-> 0]
Failed(c) == [ok |-> FALSE, doc |-> <<>>, code |-> c]
Panicked == Failed(3)
Outcomes == IF Family = "results" THEN {Made(ds) : ds \in {<<>>, <<0>>, <<0, 0>>, <<0, 1>>, <<0, 1, 1, 0>>, <<0, 1, 2, 0, 1>>}} \cup {Failed(1), Failed(2), Panicked}
            ELSE {Made(<<>>), Made(<<0, 1, 0>>), Failed(1), Panicked}
Inputs == IF Family = "results" THEN {S(""), S("a"), S(" <a> ")} ELSE {S("a")}
Threads == IF Family = "threads" THEN {TRUE, FALSE} ELSE {FALSE}

VARIABLES script, open, calls, results
vars == <<script, open, calls, results>>

\* what happens, in order: a build starts ("in", perhaps on a thread of its own), the innermost one's parser answers ("out")
Init == script = <<>> /\ open = <<>> /\ calls = <<>> /\ results = <<>>
Enter(x, t) ==
  /\ Len(calls) < MaxBuilds /\ Len(open) < MaxNest
  /\ script' = Append(script, [e |-> "in", x |-> x, own |-> t, ok |-> FALSE, doc |-> <<>>, code |-> 0])
  /\ open' = Append(open, Len(calls) + 1)
  /\ calls' = Append(calls, x)
  /\ UNCHANGED results
Leave(o) ==
  /\ open # <<>>
  /\ script' = Append(script, [e |-> "out", x |-> <<>>, own |-> FALSE, ok |-> o.ok, doc |-> o.doc, code |-> o.code])
  /\ results' = Append(results, [build |-> open[Len(open)], ok |-> o.ok, doc |-> o.doc, code |-> o.code])
  /\ open' = SubSeq(open, 1, Len(open) - 1)
  /\ UNCHANGED calls
Next == (\E x \in Inputs, t \in Threads : Enter(x, t)) \/ (\E o \in Outcomes : Leave(o))
Spec == Init /\ [][Next]_vars

OneCallPerBuild == Len(calls) = Len(results) + Len(open)
Answers == SelectSeq(script, LAMBDA s : s.e = "out")
Verbatim == \A j \in DOMAIN results : results[j].ok = Answers[j].ok /\ results[j].doc = Answers[j].doc /\ results[j].code = Answers[j].code
\* every build has one result, its own
EachOnce == \A b \in DOMAIN calls : Cardinality({j \in DOMAIN results : results[j].build = b}) = IF b \in ToSet(open) THEN 0 ELSE 1

\* the script goes on after the last build: a second call would be noticed
Emit == (open = <<>> /\ Len(calls) = MaxBuilds) =>
        CSVWrite("%1$s", <<ToJson([op |-> "parser", script |-> Append(script, [e |-> "out", x |-> <<>>, own |-> FALSE, ok |-> FALSE, doc |-> <<>>, code |-> 99]),
                                   want |-> [results |-> results, calls |-> calls]])>>, OutFile)
=============================================================================

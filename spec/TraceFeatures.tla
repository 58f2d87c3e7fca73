---------------------------- MODULE TraceFeatures ----------------------------
(* Recorded: one input given to the same operation in builds with different     *)
(* features.  Where a build offers the operation it answers as the build with   *)
(* everything does; elsewhere the operation does not exist.                      *)
EXTENDS Features, SequencesExt, Json, TLC

CONSTANTS TraceFile, Lanes
Trace == ndJsonDeserialize(TraceFile)

\* answers given on several representations of a document
Several == {"query", "travel", "roam", "access", "filters", "session", "threads"}
By(g, who) == SelectSeq(g.seen, LAMBDA s : s.by = who)
Who(g) == {g.seen[i].by : i \in DOMAIN g.seen}
\* every representation of the document this build has, and no other
SameSeen(g, full, names) ==
  IF "seen" \notin DOMAIN full THEN g = full
  ELSE /\ "seen" \in DOMAIN g /\ Who(g) = Who(full) \cap names
       /\ \A who \in Who(g) : By(g, who) = By(full, who)
Alike(op, en, g, full) ==
  CASE op \in Several -> SameSeen(g, full, Representations(en))
    [] op = "formats" -> SameSeen(g, full, Written(en))
    [] op = "total" -> LET ps == Built(en) \cap DOMAIN full IN ps = {} \/ (DOMAIN g = ps /\ \A p \in ps : g[p] = full[p])
    [] OTHER -> g = full

Extra(rec) == IF "needs" \in DOMAIN rec THEN ToSet(rec.needs) ELSE {}
Full(rec) == LET full == {i \in DOMAIN rec.runs : Enabled(ToSet(rec.runs[i].asked)) = Basic} IN rec.runs[CHOOSE i \in full : TRUE].got
RunOK(rec, run, full) ==
  LET en == Enabled(ToSet(run.asked))
  IN IF Offers(en, rec.op, Extra(rec)) THEN "unavailable" \notin DOMAIN run.got /\ Alike(rec.op, en, run.got, full)
     ELSE run.got = [unavailable |-> TRUE]
OK(rec) == LET full == Full(rec) IN \A i \in DOMAIN rec.runs : RunOK(rec, rec.runs[i], full)

VARIABLE line
Init == line \in 1..(IF Lanes < Len(Trace) THEN Lanes ELSE Len(Trace))
Next == line + Lanes <= Len(Trace) /\ line' = line + Lanes
Spec == Init /\ [][Next]_line
Conforms == OK(Trace[line])
==============================================================================

------------------------------ MODULE TraceReader ------------------------------
(* Validates recorded parses from scripted readers: the recorded plan says what  *)
(* the reader did (runs of equal steps are counted), up to its end or failure.   *)
EXTENDS Reader, Json

CONSTANTS TraceFile, Facet, Lanes
T == INSTANCE TraceXml WITH line <- 0, verdict <- ""
Trace == ndJsonDeserialize(TraceFile)

VARIABLES line, verdict
vars == <<line, verdict>>

\* a reader that fails or ends within the plan; otherwise it ends when the bytes are used up
Fold(rec) == FoldLeft(LAMBDA s, x :
     IF s.fin # "" THEN s
     ELSE CASE x[1] = "data" -> [s EXCEPT !.pos = IF @ + x[2] > Len(rec.bytes) THEN Len(rec.bytes) ELSE @ + x[2]]
            [] x[1] = "intr" -> s
            [] x[1] = "fail" -> [s EXCEPT !.fin = "fail"]
            [] x[1] \in {"stop", "end"} -> [s EXCEPT !.fin = "end"], [pos |-> 0, fin |-> ""], rec.plan)
Want(rec) == LET s == Fold(rec) IN
  IF s.fin = "fail" THEN Failed ELSE IF s.fin = "end" THEN ParseBytes(SubSeq(rec.bytes, 1, s.pos)) ELSE ParseBytes(rec.bytes)
\* what a reader that delivers everything gives is what the bytes give in one piece, even where the meaning is left open
Uncut(rec) == Fold(rec).fin = "" \/ \A i \in DOMAIN rec.plan : rec.plan[i][1] \notin {"fail", "stop"}
Consume(j) ==
  LET rec == Trace[j]
      want == Want(rec)
  IN /\ verdict' = IF "panic" \in DOMAIN rec.got \/ ~T!Same(want, rec.got) \/ ~(Uncut(rec) => rec.got.same) THEN "differs" ELSE want.verdict
     /\ line' = j
Init == line \in {-k : k \in 1..Lanes} /\ verdict = "start"
Next == LET j == IF line < 0 THEN -line ELSE line + Lanes IN j <= Len(Trace) /\ Consume(j)
Spec == Init /\ [][Next]_vars
Conforms == verdict # "differs"
=============================================================================

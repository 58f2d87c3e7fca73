----------------------------- MODULE TraceGrowth -----------------------------
(* Validates measurements: from one size of a pattern to the next, the time of  *)
(* a step may grow by the factor its work grows by, times a constant.  The work *)
(* of parsing is the length of the input, that of a walk the sum of the depths  *)
(* of its nodes.  Times are CPU times in units of 10 microseconds; below Noise  *)
(* nothing is concluded.                                                        *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS TraceFile, Lanes
Trace == ndJsonDeserialize(TraceFile)
Noise == 15000       \* 150 ms
Slack == 3

VARIABLES line, verdict
vars == <<line, verdict>>

Max(a, b) == IF a > b THEN a ELSE b
Moderate(t1, t2, w1, w2) == t2 <= Noise \/ t2 \div Max(t1, 100) <= Slack * (w2 \div Max(w1, 1) + 1)
\* the lenient and the XML parser add little to what the engine below them needs for the same text
Parsing(p, s, l) == IF p # "strict" THEN l.parse <= Noise \/ l.parse \div Max(l.engine, 100) <= 3 ELSE Moderate(s.parse, l.parse, s.len, l.len)
Grows(p, s, l) == /\ Parsing(p, s, l)
                  /\ Moderate(s.walk, l.walk, s.steps, l.steps)
                  /\ Moderate(s.text, l.text, s.steps, l.steps)
Consume(j) ==
  LET rec == Trace[j]
  IN /\ verdict' = IF "panic" \in DOMAIN rec.got \/ ~\A i \in 1..(Len(rec.got.runs) - 1) : Grows(rec.parser, rec.got.runs[i], rec.got.runs[i + 1]) THEN "differs" ELSE "moderate"
     /\ line' = j
Init == line \in {-k : k \in 1..Lanes} /\ verdict = "start"
Next == LET j == IF line < 0 THEN -line ELSE line + Lanes IN j <= Len(Trace) /\ Consume(j)
Spec == Init /\ [][Next]_vars
Conforms == verdict # "differs"
==============================================================================

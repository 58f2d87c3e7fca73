------------------------------- MODULE TraceXml -------------------------------
(* Validates recorded XML parses against the machine.                          *)
EXTENDS Xml, Json

CONSTANTS TraceFile, Facet, Lanes
Trace == ndJsonDeserialize(TraceFile)

VARIABLES line, verdict
vars == <<line, verdict>>

Pairs(a) == {a[j] : j \in DOMAIN a}
\* what is observed, brought into the form both sides are compared in
Node1(x) == [d |-> x.d, k |-> x.k, n |-> x.n, a |-> {<<y[1], SpaceVal(y[2])>> : y \in Pairs(x.a)}, t |-> NoCR(x.t), p |-> x.p,
             ns |-> IF x.k = "pi" THEN (IF x.ns = <<>> THEN <<>> ELSE PiData(x.ns[1])) ELSE [j \in DOMAIN x.ns |-> SpaceVal(x.ns[j])],
             nm |-> {<<y[1], SpaceVal(y[2])>> : y \in {z \in Pairs(x.nm) : z[1] \notin {S("xml"), S("xmlns")} /\ z # <<<<>>, <<>>>>}}]
\* white space after a CDATA section may be reported or not
Keep(d, i) == ~(d[i].k = "text" /\ AllWs(d[i].t) /\ i > 1 /\ d[i - 1].k = "cdata" /\ d[i - 1].d = d[i].d)
DocOf(d) == LET idx == SelectSeq([i \in DOMAIN d |-> i], LAMBDA i : Keep(d, i)) IN [j \in DOMAIN idx |-> Node1(d[idx[j]])]
NoAttrs(doc) == [j \in DOMAIN doc |-> [doc[j] EXCEPT !.a = {}]]

Same(want, got) ==
  CASE want.verdict = "open" -> TRUE
    [] Facet = "status" \/ want.verdict = "bad" -> (Facet = "okfull" /\ want.verdict = "bad") \/ (want.verdict = "ok") = got.ok
    [] OTHER -> got.ok /\ IF want.free THEN NoAttrs(want.doc) = NoAttrs(DocOf(got.doc)) ELSE want.doc = DocOf(got.doc)

Consume(j) ==
  LET rec == Trace[j]
      want == Parse(rec.src)
  IN /\ Assert(WellFormed(want.doc) /\ OneRoot(want.doc) /\ NoAdjacentText(want.doc), <<"machine", j>>)
     /\ verdict' = IF "panic" \in DOMAIN rec.got \/ ~Same(want, rec.got) THEN "differs" ELSE want.verdict
     /\ line' = j
Init == line \in {-k : k \in 1..Lanes} /\ verdict = "start"
Next == LET j == IF line < 0 THEN -line ELSE line + Lanes IN j <= Len(Trace) /\ Consume(j)
Spec == Init /\ [][Next]_vars
Conforms == verdict # "differs"
=============================================================================

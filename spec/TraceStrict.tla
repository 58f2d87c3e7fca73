----------------------------- MODULE TraceStrict -----------------------------
(* Validates recorded parses: each line of TraceFile holds a source text and  *)
(* what the implementation made of it.  The machine consumes the source and   *)
(* must arrive at the same outcome.  Records are spread over Lanes so that    *)
(* all workers have something to do.                                          *)
EXTENDS StrictHtml, Json

CONSTANTS TraceFile, Facet, Lanes

Trace == ndJsonDeserialize(TraceFile)

VARIABLES line, verdict
vars == <<line, verdict>>

Attrs(a) == {a[j] : j \in DOMAIN a}
NodeOf(x) == [d |-> x.d, k |-> x.k, n |-> x.n, a |-> Attrs(x.a), t |-> x.t]
DocOf(d) == [j \in DOMAIN d |-> NodeOf(d[j])]
OnlyNamed(doc) == SelectSeq(doc, LAMBDA x : Named2(x.k))

Same(want, got) ==
  CASE Facet = "status" -> want.ok = got.ok
    [] Facet # "status" /\ want.free -> TRUE
    [] Facet = "okfull" /\ ~want.free /\ ~want.ok -> TRUE
    [] Facet = "attrs" /\ ~want.free ->
         \/ ~want.ok
         \/ got.ok /\ LET w == OnlyNamed(want.doc) g == OnlyNamed(DocOf(got.doc))
                      IN Len(w) = Len(g) /\ \A j \in DOMAIN w : w[j].n = g[j].n /\ w[j].a = g[j].a
    [] Facet = "names" /\ ~want.free ->
         /\ want.ok = got.ok
         /\ LET w == OnlyNamed(want.doc) g == OnlyNamed(DocOf(got.doc))
            IN Len(w) = Len(g) /\ \A j \in DOMAIN w : w[j].n = g[j].n /\ w[j].k = g[j].k /\ w[j].d = g[j].d
    [] OTHER -> want.ok = got.ok /\ want.doc = DocOf(got.doc)

Consume(j) ==
  LET rec == Trace[j]
      m == Feed(M0, rec.src)
      want == Outcome(m)
  IN /\ Assert(WellFormed(want.doc) /\ NoEmptyText(want.doc) /\ VoidKinds(want.doc), <<"machine", j>>)
     /\ verdict' = IF "panic" \in DOMAIN rec.got THEN "differs"
                   ELSE IF Same(want, rec.got) THEN (IF want.ok THEN "accepted" ELSE "rejected")
                   ELSE "differs"
     /\ line' = j

Init == line \in {-k : k \in 1..Lanes} /\ verdict = "start"
Next == LET j == IF line < 0 THEN -line ELSE line + Lanes
        IN j <= Len(Trace) /\ Consume(j)
Spec == Init /\ [][Next]_vars

Conforms == verdict # "differs"
=============================================================================

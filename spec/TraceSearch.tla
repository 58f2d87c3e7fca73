------------------------------ MODULE TraceSearch ------------------------------
(* Validates recorded searches, traversals, accesses and histories on         *)
(* documents of any size against the specification.                           *)
EXTENDS Consume, Filter, Json, TLC

CONSTANTS TraceFile, Lanes

Trace == ndJsonDeserialize(TraceFile)
Node(x) == [d |-> x.d, k |-> x.k, n |-> x.n, a |-> ToSet(x.a), t |-> x.t]
DocOf(r) == TLCEval([i \in DOMAIN r.doc |-> Node(r.doc[i])])

\* A representation may keep equal lists of children once: then canon tells which node stands for which.
Stand(s, i) == IF "canon" \in DOMAIN s /\ i # 0 THEN s.canon[i] ELSE i
Stands(s, w) == IF "canon" \in DOMAIN s THEN [k \in DOMAIN w |-> s.canon[w[k]]] ELSE w
Offered(x) == <<IF HasName(x) THEN <<x.n>> ELSE <<>>, IF HasAttrs(x) THEN <<x.a>> ELSE <<>>, IF HasText(x) THEN <<x.t>> ELSE <<>>>>
Twins(doc, s) == "canon" \in DOMAIN s => \A i \in DOMAIN doc : Offered(doc[i]) = Offered(doc[s.canon[i]])

\* ---- queries: every representation answers what the specification answers ----
Answers(doc, suite) == [j \in DOMAIN suite |-> Answer(doc, Roots(doc), Build(suite[j]))]
QueryOK(r) == LET doc == DocOf(r)
                  w == Answers(doc, r.suite)
              IN "seen" \in DOMAIN r.got /\ \A s \in DOMAIN r.got.seen :
                    Twins(doc, r.got.seen[s]) /\ r.got.seen[s].all = [j \in DOMAIN w |-> Stands(r.got.seen[s], w[j])]

\* ---- traversals -----------------------------------------------------------------
Seen(s, g, w) == /\ g.iter = Stands(s, w.iter) /\ g.top = Stands(s, w.top)
                 /\ \A f \in {"desc", "kids"} : g[f] = [i \in DOMAIN w[f] |-> Stands(s, w[f][i])]
TravelOK(r) == LET doc == DocOf(r)
                   w == [desc |-> [i \in DOMAIN doc |-> Subtree(doc, i)], kids |-> [i \in DOMAIN doc |-> Children(doc, i)],
                         iter |-> [i \in DOMAIN doc |-> i], top |-> Roots(doc)]
               IN "seen" \in DOMAIN r.got /\ \A s \in DOMAIN r.got.seen : Seen(r.got.seen[s], r.got.seen[s].travel, w)

\* the same of documents too large to start from every node
RoamOK(r) == LET doc == DocOf(r)
                 w == [desc |-> [j \in DOMAIN r.from |-> Subtree(doc, r.from[j])], kids |-> [j \in DOMAIN r.from |-> Children(doc, r.from[j])],
                       iter |-> [i \in DOMAIN doc |-> i], top |-> Roots(doc)]
             IN "seen" \in DOMAIN r.got /\ \A s \in DOMAIN r.got.seen : Seen(r.got.seen[s], r.got.seen[s].roam, w)

\* ---- accessors -----------------------------------------------------------------------
Opt(c, v) == IF c THEN <<v>> ELSE <<>>
\* halving keeps the recursion shallow on documents of any size
RECURSIVE Join(_, _, _)
Join(ts, lo, hi) == IF lo > hi THEN <<>> ELSE IF lo = hi THEN ts[lo]
                    ELSE LET mid == (lo + hi) \div 2 IN Join(ts, lo, mid) \o <<10>> \o Join(ts, mid + 1, hi)
AllText(doc, i) == LET ts == TextsOf(doc, i) IN Join(TLCEval([j \in 1..Len(ts) |-> doc[ts[j]].t]), 1, Len(ts))
Get(x, n) == LET m == {q \in x.a : q[1] = n} IN IF HasAttrs(x) /\ m # {} THEN <<(CHOOSE q \in m : TRUE)[2]>> ELSE <<>>
Tells(doc, i, g, probes) ==
  /\ g.name = Opt(HasName(doc[i]), doc[i].n) /\ g.text = Opt(HasText(doc[i]), doc[i].t)
  /\ [j \in DOMAIN g.attrs |-> ToSet(g.attrs[j])] = Opt(HasAttrs(doc[i]), doc[i].a)
  /\ g.all = AllText(doc, i)
  /\ \A j \in DOMAIN probes : g.get[j] = Get(doc[i], probes[j])
AccessOK(r) == LET doc == DocOf(r)
               IN /\ "seen" \in DOMAIN r.got
                  /\ \A s \in DOMAIN r.got.seen, i \in DOMAIN doc : Tells(doc, i, r.got.seen[s].nodes[i], r.probes)
\* the same of a few nodes of a large document
PeekOK(r) == LET doc == DocOf(r)
             IN /\ "seen" \in DOMAIN r.got
                /\ \A s \in DOMAIN r.got.seen, j \in DOMAIN r.from : Tells(doc, r.from[j], r.got.seen[s].nodes[j], r.probes)

\* ---- histories: replay the operations, responses must agree at every step ---------------
RECURSIVE Follow(_, _, _, _, _)
Follow(doc, st, steps, s, k) ==
  IF k > Len(steps) THEN TRUE
  ELSE /\ Enabled(st, steps[k])
       /\ LET r == Do(doc, st, steps[k]) IN s.outs[k] = Stand(s, r.out) /\ Follow(doc, r.st, steps, s, k + 1)
SessionOK(r) == LET doc == DocOf(r)
                IN /\ "seen" \in DOMAIN r.got
                   /\ \A s \in DOMAIN r.got.seen : Follow(doc, Start(doc), r.steps, r.got.seen[s], 1)

\* ---- programs of consuming calls: a promised size has to be kept ---------------------------------
Kept(steps, g, w) == Len(g) = Len(w) /\ \A j \in DOMAIN g :
                       IF steps[j].o = "hint" THEN g[j][1] <= w[j][1] /\ (g[j][2] = -1 \/ g[j][2] >= w[j][1]) ELSE g[j] = w[j]
ConsumeOK(r) == LET doc == DocOf(r)
                IN /\ "seen" \in DOMAIN r.got
                   /\ \A s \in DOMAIN r.sources :
                        LET w == Run(All(doc, r.sources[s]), r.steps, 1)
                        IN \A x \in DOMAIN r.got.seen : Kept(r.steps, r.got.seen[x].outs[s], w)

\* ---- filters on their own ---------------------------------------------------------------------
FilterOK(r) == LET doc == DocOf(r)
                   w == [j \in DOMAIN r.suite |-> Accepted(doc, r.suite[j])]
               IN "seen" \in DOMAIN r.got /\ \A s \in DOMAIN r.got.seen : r.got.seen[s].accepted = w

OK(r) == CASE r.op \in {"query", "threads"} -> QueryOK(r)
           [] r.op = "travel" -> TravelOK(r)
           [] r.op = "roam" -> RoamOK(r)
           [] r.op = "access" -> IF "from" \in DOMAIN r THEN PeekOK(r) ELSE AccessOK(r)
           [] r.op = "session" -> SessionOK(r)
           [] r.op = "consume" -> ConsumeOK(r)
           [] r.op = "filters" -> FilterOK(r)
           [] OTHER -> FALSE

VARIABLE line
Init == line \in 1..(IF Lanes < Len(Trace) THEN Lanes ELSE Len(Trace))
Next == line + Lanes <= Len(Trace) /\ line' = line + Lanes
Spec == Init /\ [][Next]_line
Conforms == OK(Trace[line])
=============================================================================

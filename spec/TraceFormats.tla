------------------------------ MODULE TraceFormats ------------------------------
(* Recorded: one document spelled out in each format, and what every format's   *)
(* nodes answered.  The parsers' specifications confirm that the spellings mean *)
(* the document; the answers must be the document's in every format.            *)
EXTENDS Formats, Json, TLC

CONSTANTS TraceFile, Lanes

Trace == ndJsonDeserialize(TraceFile)
DocOf(r) == [i \in DOMAIN r.doc |-> [d |-> r.doc[i].d, k |-> r.doc[i].k, n |-> r.doc[i].n, a |-> ToSet(r.doc[i].a), t |-> r.doc[i].t]]
SameView(g, w) == /\ g.name = w.name /\ g.text = w.text /\ g.all = w.all
                  /\ [j \in DOMAIN g.attrs |-> ToSet(g.attrs[j])] = w.attrs /\ (g.attrs # <<>> => Len(g.attrs[1]) = Cardinality(w.attrs[1]))
FirstIn(s) == IF s = <<>> THEN 0 ELSE s[1]

OK(r) ==
  LET doc == DocOf(r)
      w == [j \in DOMAIN r.suite |-> Answer(doc, Roots(doc), Build(r.suite[j]))]
      tr == TravelOf(doc)
  IN /\ Expressible(doc) /\ HtmlMeans(r.html, doc) /\ XmlMeans(r.xml, doc)
     /\ "seen" \in DOMAIN r.got
     /\ \A s \in DOMAIN r.got.seen :
          /\ \A i \in DOMAIN doc : SameView(r.got.seen[s].nodes[i], ViewOf(doc, i))
          /\ r.got.seen[s].travel = tr /\ r.got.seen[s].all = w
          /\ r.got.seen[s].first = [j \in DOMAIN w |-> FirstIn(w[j])]

VARIABLE line
Init == line \in 1..(IF Lanes < Len(Trace) THEN Lanes ELSE Len(Trace))
Next == line + Lanes <= Len(Trace) /\ line' = line + Lanes
Spec == Init /\ [][Next]_line
Conforms == OK(Trace[line])
=============================================================================

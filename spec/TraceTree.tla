------------------------------ MODULE TraceTree ------------------------------
(* Recorded lenient parses of long token sequences, and of the strict parser on  *)
(* the same markup where it is sound, against the tree construction machine.     *)
EXTENDS HtmlTree, Json

CONSTANTS TraceFile, Lanes

Trace == ndJsonDeserialize(TraceFile)
Tk(x) == [t |-> x.t, n |-> x.n, a |-> {<<x.a[j][1], x.a[j][2]>> : j \in DOMAIN x.a}, c |-> x.c, sc |-> x.sc]
Run(r) == FoldLeft(LAMBDA acc, x : Token(acc, Tk(x)), Empty, r.toks)
Node(x) == [d |-> x.d, k |-> x.k, n |-> x.n, a |-> {<<x.a[j][1], x.a[j][2]>> : j \in DOMAIN x.a}, t |-> x.t]
DocOf(doc) == [i \in DOMAIN doc |-> Node(doc[i])]
\* the body's content, with the depths it has there
RECURSIVE BodyFrom(_, _)
BodyFrom(doc, i) == IF doc[i].n = S("body") THEN i ELSE BodyFrom(doc, i + 1)
Content(doc) == LET b == BodyFrom(doc, 1) IN [i \in 1..(Len(doc) - b) |-> [doc[b + i] EXCEPT !.d = @ - doc[b].d - 1]]
LowerText(t) == [i \in DOMAIN t |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]
OK(r) ==
  LET m == Run(r)
      f == Finish(m)
      g == DocOf(r.got.doc)
  IN /\ "doc" \in DOMAIN r.got
     /\ f.odd \/ LET w == Document(m)
                 IN /\ Len(g) = Len(w)
                    /\ \A i \in DOMAIN w : g[i] = w[i] \/ (w[i].k = "either" /\ g[i].k \in {"el", "void"} /\ [g[i] EXCEPT !.k = "either"] = w[i])
     /\ \A i \in DOMAIN r.got.doc : Cardinality(g[i].a) = Len(r.got.doc[i].a)
     /\ r.sound => /\ r.got.strict.ok
                    /\ LET s == DocOf(r.got.strict.doc) IN Content(g) = [i \in DOMAIN s |-> [s[i] EXCEPT !.n = LowerText(@)]]

VARIABLE line
Init == line \in 1..(IF Lanes < Len(Trace) THEN Lanes ELSE Len(Trace))
Next == line + Lanes <= Len(Trace) /\ line' = line + Lanes
Spec == Init /\ [][Next]_line
Conforms == OK(Trace[line])
=============================================================================

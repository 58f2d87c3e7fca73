------------------------------- MODULE GenVast --------------------------------
(* Searching documents of up to a million nodes.  A document is a sequence of    *)
(* runs [b: block of nodes, n: how often]; an answer a sequence of runs          *)
(* [at, js, len, n]: in each of n repetitions of a block of len nodes that       *)
(* begins after position at, the nodes at js.  For small sizes the answers are   *)
(* confirmed against the specification of searches on the expanded document.     *)
EXTENDS Query, CSV, Json

CONSTANTS Family, Sizes, OutFile
VARIABLES part, size
vars == <<part, size>>

N(d, k, n, a, t) == [d |-> d, k |-> k, n |-> S(n), a |-> a, t |-> S(t)]
E(d, n) == N(d, "el", n, {}, "")
X(d, n, v) == N(d, "el", n, {<<S("x"), S(v)>>}, "")
T(d, t) == N(d, "text", "", {}, t)
Run(b, n) == [b |-> b, n |-> n]
One(b) == Run(b, 1)

Parts == {"roots", "wide", "families", "mixed", "needle", "ends", "texts", "chains"}
Made(n) ==
  CASE part = "roots" -> <<Run(<<X(0, "a", "1"), E(1, "b"), T(0, "t")>>, n)>>
    [] part = "wide" -> <<One(<<E(0, "r")>>), Run(<<X(1, "a", "1"), E(1, "b")>>, n)>>
    [] part = "families" -> <<One(<<E(0, "r")>>), Run(<<E(1, "b"), X(2, "a", "1"), T(3, "t"), X(2, "b", "2")>>, n)>>
    [] part = "mixed" -> <<One(<<X(0, "a", "1")>>), Run(<<T(1, "t"), N(1, "comment", "", {}, "c"), N(1, "void", "b", {<<S("x"), S("1")>>}, ""), N(1, "pi", "", {}, "p")>>, n)>>
    [] part = "needle" -> <<One(<<E(0, "r")>>), Run(<<E(1, "b"), T(2, "t")>>, n), One(<<E(1, "c"), X(2, "a", "2")>>), Run(<<T(1, "u"), E(1, "b")>>, n), One(<<X(1, "a", "1")>>)>>
    [] part = "ends" -> <<One(<<X(0, "a", "1"), T(1, "t")>>), Run(<<E(0, "b"), E(1, "b")>>, n), One(<<X(0, "a", "2"), T(1, "u")>>)>>
    [] part = "texts" -> <<One(<<E(0, "r")>>), Run(<<T(1, "one"), E(1, "a"), T(2, "two"), N(1, "cdata", "", {}, "no"), N(1, "raw", "script", {}, "no")>>, n), One(<<T(1, "end")>>)>>
    [] part = "chains" -> <<One(<<E(0, "r")>>), Run([j \in 1..40 |-> IF j % 3 = 0 THEN X(j, "a", "1") ELSE E(j, "b")], (n \div 40) + 1)>>

\* ---- answers in runs ---------------------------------------------------------------------
RECURSIVE Starts(_, _)
Starts(r, o) == IF r = <<>> THEN <<>> ELSE <<o>> \o Starts(Tail(r), o + r[1].n * Len(r[1].b))
Hits(r, Takes(_)) ==
  LET st == Starts(r, 0)
  IN SelectSeq([i \in DOMAIN r |-> [at |-> st[i], js |-> SelectSeq([j \in DOMAIN r[i].b |-> j], LAMBDA j : Takes(r[i].b[j])), len |-> Len(r[i].b), n |-> r[i].n]],
               LAMBDA h : h.js # <<>>)
RECURSIVE Many(_)
Many(h) == IF h = <<>> THEN 0 ELSE h[1].n * Len(h[1].js) + Many(Tail(h))
RECURSIVE Nth(_, _)   \* counting from 0
Nth(h, k) == IF h = <<>> THEN <<>>
             ELSE IF k < h[1].n * Len(h[1].js)
                  THEN <<[at |-> h[1].at + (k \div Len(h[1].js)) * h[1].len, js |-> <<h[1].js[(k % Len(h[1].js)) + 1]>>, len |-> h[1].len, n |-> 1]>>
                  ELSE Nth(Tail(h), k - h[1].n * Len(h[1].js))
Texts(r) == [i \in DOMAIN r |-> [t |-> FlattenSeq([j \in DOMAIN r[i].b |-> IF HasText(r[i].b[j]) THEN <<10>> \o r[i].b[j].t ELSE <<>>]), n |-> r[i].n]]
Number(k) == <<[at |-> k, js |-> <<0>>, len |-> 0, n |-> 1]>>

\* ---- what is asked -------------------------------------------------------------------------
a == P("str", S("a"))
Filters == <<<<>>, <<Tag(a)>>, <<Tag(P("string", S("c")))>>, <<AttrName(P("str", S("x")))>>, <<AttrValue(P("str", S("2")))>>, <<Tag(a), Attr(P("str", S("x")), P("cow", S("1")))>>, <<Tag(P("cow", S("z")))>>>>
Modes(fs) == CASE Family = "modes" -> {<<Strict>> \o fs, fs \o <<Strict>>, <<Strict>> \o fs \o <<Recursive>>} [] OTHER -> {fs}
Places == {0, 1, 127, 255, 256, 1023, 65535, 65536, 99999}
Ask(what, ops, k, w, t) == [what |-> what, ops |-> ops, k |-> k, want |-> w, text |-> t]
QHits(r, ops, d) == LET q == Build(ops) IN Hits(r, LAMBDA x : (q.rec \/ x.d = d) /\ x.d >= d /\ Satisfies(x, q.fs))
OneRoot == part \notin {"roots", "ends"}
QAsks(r, ops, most) ==
  LET h == QHits(r, ops, 0) m == Many(h)
  IN {Ask("all", ops, 0, h, <<>>), Ask("into", ops, 0, h, <<>>), Ask("first", ops, 0, Nth(h, 0), <<>>), Ask("count", ops, 0, Number(m), <<>>),
      Ask("last", ops, 0, IF m = 0 THEN <<>> ELSE Nth(h, m - 1), <<>>)}
     \cup {Ask("nth", ops, k, Nth(h, k), <<>>) : k \in {p \in Places \cup {m - 2, m - 1, m, m + 1} : 0 <= p /\ p <= most}}
Asks(r) ==
  LET most == Many(Hits(r, LAMBDA x : TRUE)) + 1 IN
  CASE Family = "search" -> UNION {QAsks(r, Filters[j], most) : j \in DOMAIN Filters} \cup {Ask("iter", <<>>, 0, Hits(r, LAMBDA x : TRUE), <<>>)}
    [] Family = "modes" -> UNION {{Ask("all", ops, 0, QHits(r, ops, 0), <<>>), Ask("first", ops, 0, Nth(QHits(r, ops, 0), 0), <<>>)} : ops \in UNION {Modes(Filters[j]) : j \in DOMAIN Filters}}
    [] Family = "inside" -> IF OneRoot THEN {Ask("inside", ops, 0, QHits(r, ops, 1), <<>>) : ops \in UNION {{Filters[j], <<Strict>> \o Filters[j]} : j \in DOMAIN Filters}} ELSE {}
    [] Family = "travel" -> IF OneRoot THEN {Ask("descendants", <<>>, 0, Hits(r, LAMBDA x : TRUE), <<>>), Ask("children", <<>>, 0, Hits(r, LAMBDA x : x.d = 1), <<>>),
                                             Ask("kids", <<>>, 0, Hits(r, LAMBDA x : x.d = 1), <<>>)} ELSE {Ask("iter", <<>>, 0, Hits(r, LAMBDA x : TRUE), <<>>)}
    [] Family = "text" -> IF OneRoot THEN {Ask("text", <<>>, 0, <<>>, Texts(r))} ELSE {}

Init == part \in Parts /\ size \in Sizes
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* ---- the expanded form, for the specification of searches ------------------------------------
Expand(r) == FlattenSeq([i \in DOMAIN r |-> [j \in 1..(r[i].n * Len(r[i].b)) |-> r[i].b[((j - 1) % Len(r[i].b)) + 1]]])
Spread(h) == FlattenSeq([i \in DOMAIN h |-> [j \in 1..(h[i].n * Len(h[i].js)) |-> h[i].at + ((j - 1) \div Len(h[i].js)) * h[i].len + h[i].js[((j - 1) % Len(h[i].js)) + 1]]])
Item(s, k) == IF k + 1 \in DOMAIN s THEN <<s[k + 1]>> ELSE <<>>
Right(doc, x) ==
  LET ans == Answer(doc, Roots(doc), Build(x.ops))
  IN CASE x.what \in {"all", "into"} -> Spread(x.want) = ans
       [] x.what = "first" -> Spread(x.want) = Item(ans, 0)
       [] x.what = "nth" -> Spread(x.want) = Item(ans, x.k)
       [] x.what = "last" -> Spread(x.want) = Item(ans, Len(ans) - 1)
       [] x.what = "count" -> Spread(x.want) = <<Len(ans)>>
       [] x.what = "iter" -> Spread(x.want) = [j \in DOMAIN doc |-> j]
       [] x.what = "inside" -> Spread(x.want) = Answer(doc, Children(doc, 1), Build(x.ops))
       [] x.what = "descendants" -> Spread(x.want) = Subtree(doc, 1)
       [] x.what \in {"children", "kids"} -> Spread(x.want) = Children(doc, 1)
       [] x.what = "text" -> FlattenSeq([i \in DOMAIN x.text |-> FlattenSeq([j \in 1..x.text[i].n |-> x.text[i].t])])
                             = FlattenSeq([j \in DOMAIN TextsOf(doc, 1) |-> <<10>> \o doc[TextsOf(doc, 1)[j]].t])
Confirmed == size <= 9 => LET r == Made(size) doc == TLCEval(Expand(r)) IN WellFormedDoc(doc) /\ \A x \in Asks(r) : Right(doc, x)
Emit == Asks(Made(size)) = {} \/ CSVWrite("%1$s", <<ToJson([op |-> "vast", doc |-> [i \in DOMAIN Made(size) |-> [b |-> [j \in DOMAIN Made(size)[i].b |-> LET x == Made(size)[i].b[j] once(t) == <<[t |-> t, n |-> 1]>>
                      IN [x EXCEPT !.n = once(@), !.t = once(@), !.a = {<<once(q[1]), once(q[2])>> : q \in @}]], n |-> Made(size)[i].n]], asks |-> SetToSeq(Asks(Made(size))), want |-> [same |-> TRUE]])>>, OutFile)
===============================================================================

------------------------------- MODULE GenNodes -------------------------------
(* All documents of a family; for each, what every traversal delivers and     *)
(* what every accessor reports, for every node.                               *)
EXTENDS Traverse, CSV, Json, TLC

CONSTANTS Family, MaxNodes, OutFile

N(k, n, a, t) == [d |-> 0, k |-> k, n |-> S(n), a |-> {<<S(x[1]), S(x[2])>> : x \in a}, t |-> S(t)]

Labels ==
  CASE Family = "trees" -> {N("el", "a", {}, ""), N("text", "", {}, "t")}
    [] Family = "shapes" -> {N("el", "a", {}, "")}
    [] Family \in {"customs", "chains"} -> {N("el", "a", {}, ""), N("el", "a", {<<"x", "1">>}, ""), N("rich", "a", {}, "r"), N("bag", "", {}, ""), N("tagonly", "b", {}, ""), N("text", "", {}, "t")}
    [] Family = "leaves" -> {N("el", "a", {}, ""), N("void", "a", {}, ""), N("raw", "a", {}, "r"), N("text", "", {}, "t"), N("comment", "", {}, "c")}
    [] Family = "texts" -> {N("el", "a", {}, ""), N("raw", "s", {}, "raw"), N("comment", "", {}, "c"), N("cdata", "", {}, "d"),
                            N("text", "", {}, "t"), N("text", "", {}, ""), N("text", "", {}, "x\ny "), N("rich", "a", {}, "r")}
    [] Family = "access" -> {N("el", "a", a, "") : a \in {{}, {<<"x", "1">>}, {<<"x", "">>}, {<<"", "1">>}, {<<"x", "1">>, <<"X", "2">>, <<"xx", "3">>}, {<<"x ", "1">>, <<"a", "x">>}}}
         \cup {N(k, "a", {<<"x", "1">>}, IF k = "raw" THEN "r" ELSE "") : k \in {"void", "raw", "bag", "rich"}}
         \cup {N("tagonly", "b", {}, ""), N("el", "", {}, ""), N("text", "", {}, "t"), N("text", "", {}, ""), N("comment", "", {}, "c"),
               N("doctype", "", {}, "html"), N("cdata", "", {}, "d"), N("pi", "", {}, "p")}

\* attribute names looked up
Probes == <<S("x"), S("X"), S("xx"), S(""), S("x "), S("a"), S("class"), S("1")>>

VARIABLES doc
vars == <<doc>>
Init == doc = <<>>
AddNode(lab, dep) ==
  /\ Len(doc) < MaxNodes
  /\ IF doc = <<>> THEN dep = 0
     ELSE dep <= doc[Len(doc)].d + (IF doc[Len(doc)].k \in ParentKinds THEN 1 ELSE 0)
  \* chains: only children all the way down
  /\ Family = "chains" => dep = Len(doc)
  /\ doc' = Append(doc, [lab EXCEPT !.d = dep])
Next == \E lab \in Labels, dep \in 0..(MaxNodes - 1) : AddNode(lab, dep)
Spec == Init /\ [][Next]_vars

\* drain the machines
RECURSIVE DrainTree(_)
DrainTree(fr) == LET s == TreeNext(doc, fr) IN IF s.item = 0 THEN <<>> ELSE <<s.item>> \o DrainTree(s.fr)
RECURSIVE DrainIter(_)
DrainIter(it) == LET s == IterNext(doc, it) IN IF s.item = 0 THEN <<>> ELSE <<s.item>> \o DrainIter(s.it)

Descendants(i) == DrainTree(TreeStart(i))
WholeIter == DrainIter(IterStart(Roots(doc), TRUE))

DocOK == WellFormedDoc(doc)
\* the machine delivers the subtree, each node once, parents before children, siblings in order
ExactSubtree == \A i \in DOMAIN doc : Descendants(i) = Subtree(doc, i)
EveryNodeOnce == WholeIter = [j \in DOMAIN doc |-> j]
ParentsFirst == \A i \in DOMAIN doc : \A c \in ToSet(Children(doc, i)) : c > i /\ doc[c].d = doc[i].d + 1
\* an exhausted iterator stays exhausted
Finished == \A i \in DOMAIN doc : TreeNext(doc, <<>>) = [item |-> 0, fr |-> <<>>]

Opt(c, v) == IF c THEN <<v>> ELSE <<>>
RECURSIVE Join(_)
Join(ts) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o <<10>> \o Join(Tail(ts))
AllText(i) == Join([j \in 1..Len(TextsOf(doc, i)) |-> doc[TextsOf(doc, i)[j]].t])
Get(x, n) == LET m == {q \in x.a : q[1] = n} IN IF HasAttrs(x) /\ m # {} THEN <<(CHOOSE q \in m : TRUE)[2]>> ELSE <<>>

Travel == [desc |-> [i \in DOMAIN doc |-> Descendants(i)], kids |-> [i \in DOMAIN doc |-> Children(doc, i)],
           iter |-> WholeIter, top |-> Roots(doc)]
Access == [i \in DOMAIN doc |-> [name |-> Opt(HasName(doc[i]), doc[i].n), text |-> Opt(HasText(doc[i]), doc[i].t),
                                 attrs |-> Opt(HasAttrs(doc[i]), doc[i].a), all |-> AllText(i),
                                 get |-> [j \in DOMAIN Probes |-> Get(doc[i], Probes[j])]]]

EmitTravel == CSVWrite("%1$s", <<ToJson([op |-> "travel", doc |-> doc, want |-> Travel])>>, OutFile)
EmitAccess == CSVWrite("%1$s", <<ToJson([op |-> "access", doc |-> doc, probes |-> Probes, want |-> [nodes |-> Access]])>>, OutFile)
=============================================================================

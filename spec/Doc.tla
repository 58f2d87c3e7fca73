--------------------------------- MODULE Doc ---------------------------------
(* Documents as flat pre-order sequences of nodes [d, k, n, a, t]: depth,     *)
(* kind, name, set of attributes <<name, value>>, text.  A node is identified *)
(* by its position.                                                           *)
EXTENDS Chars, FiniteSets

\* what a node of each kind has to offer to a search
\*   built-in kinds:  el void raw text comment doctype cdata pi
\*   kinds only a user-defined node type can have:  tagonly (a name but no attributes),
\*   bag (attributes but no name), rich (everything at once)
NamedKinds == {"el", "void", "raw", "tagonly", "rich"}
AttrKinds == {"el", "void", "raw", "bag", "rich"}
TextKinds == {"text", "rich"}
ParentKinds == {"el", "tagonly", "bag", "rich"}

HasName(x) == x.k \in NamedKinds
HasAttrs(x) == x.k \in AttrKinds
HasText(x) == x.k \in TextKinds

\* position of the last node of i's subtree
RECURSIVE EndFrom(_, _, _)
EndFrom(doc, i, j) == IF j < Len(doc) /\ doc[j + 1].d > doc[i].d THEN EndFrom(doc, i, j + 1) ELSE j
EndOf(doc, i) == EndFrom(doc, i, i)

\* positions lo..hi at depth dep, in order
AtDepth(doc, lo, hi, dep) == SelectSeq([j \in 1..(hi - lo + 1) |-> lo + j - 1], LAMBDA j : doc[j].d = dep)
Children(doc, i) == AtDepth(doc, i + 1, EndOf(doc, i), doc[i].d + 1)
Roots(doc) == AtDepth(doc, 1, Len(doc), 0)
Subtree(doc, i) == [j \in 1..(EndOf(doc, i) - i + 1) |-> i + j - 1]

\* positions of the text-bearing nodes of i's subtree
TextsOf(doc, i) == SelectSeq(Subtree(doc, i), LAMBDA j : HasText(doc[j]))

WellFormedDoc(doc) ==
  \A i \in DOMAIN doc :
    IF i = 1 THEN doc[i].d = 0
    ELSE doc[i].d \in 0..(doc[i - 1].d + (IF doc[i - 1].k \in ParentKinds THEN 1 ELSE 0))
=============================================================================

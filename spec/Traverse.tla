------------------------------- MODULE Traverse -------------------------------
(* The iterators of the library as machines.  A tree iterator is a stack of   *)
(* frames [n: node, c: next child, 0 when the node itself is still due]; one  *)
(* call of next() is one step of the machine.                                 *)
EXTENDS Doc

\* one call of next() on a tree iterator: [item |-> node or 0, fr |-> frames after it]
RECURSIVE TreeNext(_, _)
TreeNext(doc, fr) ==
  IF fr = <<>> THEN [item |-> 0, fr |-> fr]
  ELSE LET top == fr[Len(fr)]
           below == SubSeq(fr, 1, Len(fr) - 1)
       IN IF top.c = 0 THEN [item |-> top.n, fr |-> Append(below, [top EXCEPT !.c = 1])]
          ELSE LET ch == Children(doc, top.n)
               IN IF top.c <= Len(ch)
                  THEN TreeNext(doc, Append(Append(below, [top EXCEPT !.c = @ + 1]), [n |-> ch[top.c], c |-> 0]))
                  ELSE TreeNext(doc, below)

TreeStart(i) == <<[n |-> i, c |-> 0]>>

\* An iterator over the nodes `roots` (a sequence): recursive ones run a tree iterator over
\* each root in turn, direct ones deliver the roots themselves.
IterStart(roots, recursive) == [roots |-> roots, rec |-> recursive, r |-> 0, fr |-> <<>>]

RECURSIVE IterNext(_, _)
IterNext(doc, it) ==
  IF ~it.rec
  THEN IF it.r < Len(it.roots) THEN [item |-> it.roots[it.r + 1], it |-> [it EXCEPT !.r = @ + 1]] ELSE [item |-> 0, it |-> it]
  ELSE LET s == TreeNext(doc, it.fr)
       IN IF s.item # 0 THEN [item |-> s.item, it |-> [it EXCEPT !.fr = s.fr]]
          ELSE IF it.r < Len(it.roots)
               THEN IterNext(doc, [it EXCEPT !.r = @ + 1, !.fr = TreeStart(it.roots[it.r + 1])])
               ELSE [item |-> 0, it |-> [it EXCEPT !.fr = <<>>]]

\* what an iterator has to deliver in total, stated without the machine
Delivers(doc, roots, recursive) ==
  IF recursive THEN FlattenSeq([j \in DOMAIN roots |-> Subtree(doc, roots[j])]) ELSE roots
=============================================================================

------------------------------- MODULE Consume -------------------------------
(* Ways of consuming an iterator.  What any iterator of the library does is   *)
(* determined by the sequence it delivers when it is stepped: every other     *)
(* way of taking items from it (skipping, counting, searching, folding) is a  *)
(* function of what is left of that sequence.                                 *)
(*   Apply(rem, op) = [out, rem, over]   over: the iterator itself is used up *)
EXTENDS Session

Opn(o, k, m) == [o |-> o, k |-> k, m |-> m]

\* predicates handed to find, position, any, all, take_while: on the position of a node
Pred(k, x) == x % (k + 2) = 0
\* index of the first item the predicate holds for, Len + 1 if there is none
Where(rem, k) == LET f == SelectInSeq(rem, LAMBDA x : Pred(k, x)) IN IF f = 0 THEN Len(rem) + 1 ELSE f

Drop(rem, n) == SubSeq(rem, n + 1, Len(rem))
At(rem, j) == IF j \in DOMAIN rem THEN rem[j] ELSE 0
Fst(rem, n) == SubSeq(rem, 1, IF n < Len(rem) THEN n ELSE Len(rem))
\* items 1, 1+k, 1+2k, ...
Every(rem, k) == [j \in 1..((Len(rem) + k - 1) \div k) |-> rem[(j - 1) * k + 1]]

Apply(rem, op) ==
  LET w == Where(rem, op.k)
      go(out, r) == [out |-> out, rem |-> r, over |-> FALSE]
      end(out) == [out |-> out, rem |-> <<>>, over |-> TRUE]
  IN CASE op.o = "next" -> go(<<At(rem, 1)>>, Drop(rem, 1))
       [] op.o \in {"nth", "hop"} -> go(<<At(rem, op.k + 1)>>, Drop(rem, op.k + 1))
       [] op.o = "take" -> go(Fst(rem, op.k), Drop(rem, op.k))
       [] op.o = "step" -> go(Fst(Every(rem, op.k), op.m), IF op.m = 0 THEN rem ELSE Drop(rem, 1 + (op.m - 1) * op.k))
       [] op.o = "find" -> go(<<At(rem, w)>>, Drop(rem, w))
       [] op.o = "place" -> go(<<IF w \in DOMAIN rem THEN w ELSE 0>>, Drop(rem, w))
       [] op.o = "any" -> go(<<IF w \in DOMAIN rem THEN 1 ELSE 0>>, Drop(rem, w))
       \* the first item the predicate holds for is taken and lost
       [] op.o = "until" -> go(Fst(rem, w - 1), Drop(rem, w))
       [] op.o = "hint" -> go(<<Len(rem)>>, rem)
       [] op.o = "count" -> end(<<Len(rem)>>)
       [] op.o = "last" -> end(<<At(rem, Len(rem))>>)
       [] op.o \in {"collect", "fold", "each", "chain"} -> end(rem)
       [] op.o = "skip" -> end(Drop(rem, op.k))
       [] op.o = "stepall" -> end(Every(rem, op.k))
       [] op.o = "max" -> end(<<FoldLeft(LAMBDA x, y : IF y > x THEN y ELSE x, At(rem, 1), rem)>>)
       [] op.o = "min" -> end(<<FoldLeft(LAMBDA x, y : IF y < x THEN y ELSE x, At(rem, 1), rem)>>)
       [] op.o = "halves" -> end(SelectSeq(rem, LAMBDA x : Pred(op.k, x)) \o SelectSeq(rem, LAMBDA x : ~Pred(op.k, x)))

Going == {Opn("next", 0, 0), Opn("hint", 0, 0)} \cup {Opn(o, k, 0) : o \in {"nth", "hop", "take"}, k \in 0..2} \cup {Opn("nth", 5, 0), Opn("take", 9, 0)}
         \cup {Opn("step", 2, m) : m \in 0..2} \cup {Opn(o, k, 0) : o \in {"find", "place", "any", "until"}, k \in 0..1}
Ending == {Opn(o, 0, 0) : o \in {"count", "last", "collect", "fold", "each", "chain", "max", "min", "halves"}}
          \cup {Opn("skip", k, 0) : k \in {0, 1, 3}} \cup {Opn("stepall", k, 0) : k \in {1, 2, 3}}

\* ---- the iterators there are -----------------------------------------------------------
\*   whole strict recursive iter loop   of a document: every way of starting without a filter
\*   tag x     elements named a; tagstrict, stricttag: at the top level only; attr: having an attribute x
\*   desc i    the descendants of node i; kids i, each i: its direct children
Src(s, n) == [s |-> s, n |-> n]
DocSources == {Src(s, 0) : s \in {"whole", "strict", "recursive", "iter", "loop", "tag", "tagstrict", "stricttag", "attr"}}
NodeSources(doc) == {Src(s, i) : s \in {"desc", "kids", "each"}, i \in DOMAIN doc}

QueryOf(s) ==
  CASE s \in {"whole", "recursive", "iter", "loop"} -> Fresh
    [] s = "strict" -> Build(<<Strict>>)
    [] s = "tag" -> Build(<<Tag(P("str", S("a")))>>)
    [] s = "tagstrict" -> Build(<<Tag(P("str", S("a"))), Strict>>)
    [] s = "stricttag" -> Build(<<Strict, Tag(P("str", S("a")))>>)
    [] s = "attr" -> Build(<<AttrName(P("str", S("x")))>>)

All(doc, src) ==
  CASE src.s = "desc" -> Subtree(doc, src.n)
    [] src.s \in {"kids", "each"} -> Children(doc, src.n)
    [] OTHER -> Answer(doc, Roots(doc), QueryOf(src.s))

\* a whole program: the outputs of its steps, one after the other
RECURSIVE Run(_, _, _)
Run(rem, steps, j) == IF j > Len(steps) THEN <<>> ELSE LET r == Apply(rem, steps[j]) IN <<r.out>> \o Run(r.rem, steps, j + 1)
=============================================================================

-------------------------------- MODULE Query --------------------------------
(* Patterns, filters, query building and query execution.                     *)
EXTENDS Traverse

\* ---- patterns [t: type, v: text, m: how a regular expression is anchored] -----
\*   bt bf        the constants true and false
\*   str string cow   the text as &str, String, Cow
\*   user         a user-defined exact pattern, ci one that ignores case
\*   re           a regular expression around the literal v, as m says: all of the text, its beginning, its end,
\*                anywhere, anywhere and whatever the case, whole lines, twice
IsSuffixOf(v, s) == Len(v) <= Len(s) /\ SubSeq(s, Len(s) - Len(v) + 1, Len(s)) = v
\* between the ends of lines
IsLine(v, s) == \E i \in 0..(Len(s) - Len(v)) : /\ SubSeq(s, i + 1, i + Len(v)) = v
                                               /\ (i = 0 \/ s[i] = LF)
                                               /\ (i + Len(v) = Len(s) \/ s[i + Len(v) + 1] = LF)
\* twice, one after the other
HasTwice(v, s) == \E i \in 0..(Len(s) - Len(v)) : SubSeq(s, i + 1, i + Len(v)) = v
                    /\ \E j \in (i + Len(v))..(Len(s) - Len(v)) : SubSeq(s, j + 1, j + Len(v)) = v
HasInfix(v, s) == \E i \in 0..(Len(s) - Len(v)) : SubSeq(s, i + 1, i + Len(v)) = v

PMatch(p, s) ==
  CASE p.t = "bt" -> TRUE
    [] p.t = "bf" -> FALSE
    [] p.t \in {"str", "string", "cow", "user"} -> s = p.v
    [] p.t = "ci" -> Low(s) = Low(p.v)
    [] p.t = "re" -> CASE p.m = "is" -> s = p.v
                       [] p.m = "pre" -> IsPrefix(p.v, s)
                       [] p.m = "suf" -> IsSuffixOf(p.v, s)
                       [] p.m = "sub" -> HasInfix(p.v, s)
                       [] p.m = "low" -> HasInfix(Low(p.v), Low(s))
                       [] p.m = "line" -> IsLine(p.v, s)
                       [] p.m = "two" -> HasTwice(p.v, s)

P(t, v) == [t |-> t, v |-> v, m |-> ""]
Yes == P("bt", <<>>)
No == P("bf", <<>>)
Re(m, v) == [t |-> "re", v |-> v, m |-> m]

\* ---- filters -------------------------------------------------------------------
\* one single attribute must satisfy both patterns
TagOK(x, p) == HasName(x) /\ PMatch(p, x.n)
AttrOK(x, p, v) == HasAttrs(x) /\ \E q \in x.a : PMatch(p, q[1]) /\ PMatch(v, q[2])

ClassName == S("class")

\* ---- building: a query is [rec: recursive?, fs: sequence of filters] --------------
Fresh == [rec |-> TRUE, fs |-> <<>>]
IsMode(op) == op.o \in {"strict", "recursive"}
Build1(q, op) ==
  CASE op.o = "strict" -> [q EXCEPT !.rec = FALSE]
    [] op.o = "recursive" -> [q EXCEPT !.rec = TRUE]
    [] OTHER -> [q EXCEPT !.fs = Append(@, op)]
Build(ops) == FoldLeft(Build1, Fresh, ops)

OpOK(x, op) ==
  CASE op.o = "tag" -> TagOK(x, op.p)
    [] op.o = "attr" -> AttrOK(x, op.p, op.v)
    [] op.o = "attr_name" -> AttrOK(x, op.p, Yes)
    [] op.o = "attr_value" -> AttrOK(x, Yes, op.v)
    [] op.o = "class" -> AttrOK(x, P("str", ClassName), op.p)
Satisfies(x, fs) == \A j \in DOMAIN fs : OpOK(x, fs[j])

\* shorthands for operations
Tag(p) == [o |-> "tag", p |-> p, v |-> Yes]
Attr(p, v) == [o |-> "attr", p |-> p, v |-> v]
AttrName(p) == [o |-> "attr_name", p |-> p, v |-> Yes]
AttrValue(v) == [o |-> "attr_value", p |-> Yes, v |-> v]
Class(p) == [o |-> "class", p |-> p, v |-> Yes]
Strict == [o |-> "strict", p |-> Yes, v |-> Yes]
Recursive == [o |-> "recursive", p |-> Yes, v |-> Yes]

\* ---- running: the query iterator advances its tree iterator to the next match ------
QStart(roots, q) == [it |-> IterStart(roots, q.rec), fs |-> q.fs]
RECURSIVE QNext(_, _)
QNext(doc, qi) ==
  LET s == IterNext(doc, qi.it)
      qi2 == [qi EXCEPT !.it = s.it]
  IN IF s.item = 0 \/ Satisfies(doc[s.item], qi.fs) THEN [item |-> s.item, qi |-> qi2] ELSE QNext(doc, qi2)

RECURSIVE QDrain(_, _)
QDrain(doc, qi) ==
  LET s == QNext(doc, qi) IN IF s.item = 0 THEN <<>> ELSE <<s.item>> \o QDrain(doc, s.qi)

\* the answer, stated without any iterator
Answer(doc, roots, q) == SelectSeq(Delivers(doc, roots, q.rec), LAMBDA i : Satisfies(doc[i], q.fs))
=============================================================================

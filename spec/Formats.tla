------------------------------- MODULE Formats -------------------------------
(* One tree written in every format.  A document of one root element with     *)
(* elements, void elements, text and comments is spelled out as HTML and as    *)
(* XML; the parsers' own specifications confirm that the spellings mean it.    *)
EXTENDS Query

H == INSTANCE StrictHtml
X == INSTANCE Xml

VoidNames1 == {S("br"), S("hr"), S("img"), S("input"), S("wbr"), S("embed")}

\* ---- spellings: style 1 named references and double quotes, 2 numeric ones and single quotes ----
Dec(v) == LET RECURSIVE Ds(_)
              Ds(x) == IF x < 10 THEN <<48 + x>> ELSE Ds(x \div 10) \o <<48 + (x % 10)>>
          IN Ds(v)
Esc1(c, sty) ==
  CASE c \in {AMP, LT, GT, DQ, SQ} /\ sty = 1 ->
         S("&") \o (CASE c = AMP -> S("amp") [] c = LT -> S("lt") [] c = GT -> S("gt") [] c = DQ -> S("quot") [] c = SQ -> S("apos")) \o S(";")
    [] c \in {AMP, LT, GT, DQ, SQ} -> S("&#") \o Dec(c) \o S(";")
    [] OTHER -> <<c>>
Esc(t, sty) == FlattenSeq([i \in DOMAIN t |-> Esc1(t[i], sty)])
Quote(sty) == IF sty = 1 THEN <<DQ>> ELSE <<SQ>>
AttrSrc(as, sty) == FlattenSeq([j \in DOMAIN as |-> S(" ") \o as[j][1] \o S("=") \o Quote(sty) \o Esc(as[j][2], sty) \o Quote(sty)])
OpenSrc(x, fmt, sty) ==
  LET as == SetToSeq(x.a) IN
  CASE x.k = "el" -> S("<") \o x.n \o AttrSrc(as, sty) \o S(">")
    [] x.k = "void" -> S("<") \o x.n \o AttrSrc(as, sty) \o (IF fmt = "html" /\ sty = 2 THEN S(">") ELSE S("/>"))
    [] x.k = "comment" -> S("<!--") \o x.t \o S("-->")
    [] x.k = "text" -> Esc(x.t, sty)
\* closing tags of the elements that end after node i
CloseSrc(doc, i) ==
  LET next == IF i < Len(doc) THEN doc[i + 1].d ELSE 0
      ended == {j \in 1..i : doc[j].k = "el" /\ doc[j].d >= next /\ \A l \in (j + 1)..i : doc[l].d > doc[j].d}
      s == SetToSortSeq(ended, LAMBDA p, q : p > q)
  IN FlattenSeq([j \in DOMAIN s |-> S("</") \o doc[s[j]].n \o S(">")])
Source(doc, fmt, sty) == FlattenSeq([i \in DOMAIN doc |-> OpenSrc(doc[i], fmt, sty) \o CloseSrc(doc, i)])

\* ---- what the parsers' specifications make of it ------------------------------------------------
AsXml(x) == [d |-> x.d, k |-> IF x.k = "void" THEN "el" ELSE x.k, n |-> x.n, a |-> x.a, t |-> x.t, p |-> <<>>, ns |-> <<>>, nm |-> {}]
HtmlMeans(src, doc) == LET r == H!Parse(src) IN r.ok /\ ~r.free /\ r.doc = doc
XmlMeans(src, doc) == X!Parse(src) = [verdict |-> "ok", free |-> FALSE, doc |-> [i \in DOMAIN doc |-> AsXml(doc[i])]]

\* documents every format can express alike
Expressible(doc) ==
  /\ doc # <<>> /\ doc[1].k = "el" /\ \A i \in 2..Len(doc) : doc[i].d >= 1
  /\ \A i \in DOMAIN doc : CASE doc[i].k = "text" -> ~X!AllWs(doc[i].t) /\ doc[i].d >= 1
                             [] doc[i].k = "void" -> doc[i].n \in VoidNames1
                             [] OTHER -> TRUE
  /\ \A i \in 1..(Len(doc) - 1) : LET nexts == {j \in (i + 1)..Len(doc) : doc[j].d <= doc[i].d} IN
       doc[i].k = "text" /\ nexts # {} => LET j == CHOOSE j \in nexts : \A l \in nexts : j <= l IN ~(doc[j].k = "text" /\ doc[j].d = doc[i].d)

\* ---- what is observed of a node, whatever the format -----------------------------------------------
OptF(c, v) == IF c THEN <<v>> ELSE <<>>
RECURSIVE JoinF(_)
JoinF(ts) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o <<10>> \o JoinF(Tail(ts))
ViewOf(doc, i) == [name |-> OptF(HasName(doc[i]), doc[i].n), text |-> OptF(HasText(doc[i]), doc[i].t), attrs |-> OptF(HasAttrs(doc[i]), doc[i].a),
                   all |-> JoinF([j \in 1..Len(TextsOf(doc, i)) |-> doc[TextsOf(doc, i)[j]].t])]
TravelOf(doc) == [desc |-> [i \in DOMAIN doc |-> Subtree(doc, i)], kids |-> [i \in DOMAIN doc |-> Children(doc, i)],
                  iter |-> [i \in DOMAIN doc |-> i], top |-> Roots(doc)]
=============================================================================

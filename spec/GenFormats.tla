------------------------------ MODULE GenFormats ------------------------------
(* All trees of a family, written in every format, with the answer of every     *)
(* query of the suite and everything that can be observed of their nodes.       *)
EXTENDS Formats, CSV, Json

CONSTANTS Family, MaxNodes, OutFile, SuiteFile

N(k, n, a, t) == [d |-> 0, k |-> k, n |-> S(n), a |-> {<<S(x[1]), S(x[2])>> : x \in a}, t |-> S(t)]
Labels ==
  CASE Family = "trees" -> {N("el", "div", {}, ""), N("el", "span", {<<"x", "1">>}, ""), N("void", "br", {}, ""), N("text", "", {}, "t"), N("comment", "", {}, "c")}
    [] Family = "kinds" -> {N("el", "div", {<<"class", "a">>}, ""), N("el", "x-y", {}, ""), N("void", "img", {<<"class", "a">>}, ""), N("text", "", {}, "div"), N("comment", "", {}, "div")}
    [] Family = "values" -> {N("el", "div", {<<"x", v>>}, "") : v \in {"", "a&b", "<", ">", "it's", "\"q\"", "&amp;", " a  b ", "&#38;", "]]>", "a;b=c", "/"}}
         \cup {N("text", "", {}, t) : t \in {" t ", "a&b", "<b>", "]]>", "&lt;", "\"'", "a\n b", "&copy;", "--", "-->", "x=1"}}
         \cup {[N("text", "", {}, "") EXCEPT !.t = t] : t \in {<<160>>, <<8195>>, <<12288, 160>>, <<8203>>, <<233>>}}
         \cup {N("comment", "", {}, t) : t \in {"", " c ", "<a>", "&amp;", "- x", "]]>"}}
    [] Family = "attrs" -> {N("el", "div", a, "") : a \in {{}, {<<"x", "1">>, <<"y", "2">>}, {<<"y", "1">>, <<"x", "2">>, <<"class", "c d">>}, {<<"data-x", "y">>, <<"id", "x">>}, {<<"a1", "">>, <<"a2", "">>, <<"b", "a1">>}}}
         \cup {N("void", "input", a, "") : a \in {{}, {<<"x", "1">>, <<"y", "2">>}, {<<"class", "c d">>}}}

St(s) == P("str", S(s))
Suite == SetToSeq({<<>>, <<Strict>>, <<Tag(St("div"))>>, <<Tag(St("span"))>>, <<Tag(St("br"))>>, <<Tag(Yes)>>, <<Tag(No)>>, <<Strict, Tag(St("div"))>>,
  <<AttrName(St("x"))>>, <<AttrValue(St("1"))>>, <<Attr(St("x"), St("1"))>>, <<Attr(St("x"), Yes)>>, <<Attr(Yes, St("2"))>>, <<Class(St("a"))>>, <<Class(St("c d"))>>,
  <<Class(Yes)>>, <<Tag(St("div")), AttrName(St("x"))>>, <<Tag(Re("suf", S("i"))), AttrName(Yes)>>, <<Tag(P("string", S("div")))>>, <<Tag(P("user", S("x-y")))>>,
  <<Attr(P("cow", S("x")), Re("sub", S("&")))>>, <<AttrValue(P("ci", S("X")))>>, <<Attr(St("x"), St("a&b"))>>, <<AttrValue(St(""))>>, <<Tag(St("div")), Strict>>,
  <<Tag(St("div")), Attr(St("y"), St("1")), Class(Yes)>>, <<AttrValue(St(" a  b "))>>})
ASSUME CSVWrite("%1$s", <<ToJson(Suite)>>, SuiteFile)

VARIABLES doc
vars == <<doc>>
Init == doc = <<>>
AddNode(lab, dep) ==
  /\ Len(doc) < MaxNodes
  /\ doc # <<>> => dep >= 1 /\ dep <= doc[Len(doc)].d + (IF doc[Len(doc)].k = "el" THEN 1 ELSE 0)
  /\ doc = <<>> => dep = 0
  /\ Expressible(Append(doc, [lab EXCEPT !.d = dep])) /\ doc' = Append(doc, [lab EXCEPT !.d = dep])
Next == \E lab \in Labels, dep \in 0..(MaxNodes - 1) : AddNode(lab, dep)
Spec == Init /\ [][Next]_vars

\* both spellings in both formats mean the tree
SameMeaning == doc # <<>> => \A sty \in {1, 2} : HtmlMeans(Source(doc, "html", sty), doc) /\ XmlMeans(Source(doc, "xml", sty), doc)

Queries == [j \in DOMAIN Suite |-> Build(Suite[j])]
RunSuite == [j \in DOMAIN Suite |-> QDrain(doc, QStart(Roots(doc), Queries[j]))]
FirstOf(s) == IF s = <<>> THEN 0 ELSE s[1]
Emit == doc # <<>> => \A sty \in {1, 2} :
  LET r == RunSuite
  IN CSVWrite("%1$s", <<ToJson([op |-> "formats", doc |-> doc, html |-> Source(doc, "html", sty), xml |-> Source(doc, "xml", sty),
     want |-> [all |-> r, first |-> [j \in DOMAIN r |-> FirstOf(r[j])], nodes |-> [i \in DOMAIN doc |-> ViewOf(doc, i)], travel |-> TravelOf(doc)]])>>, OutFile)
=============================================================================

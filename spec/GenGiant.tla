------------------------------- MODULE GenGiant -------------------------------
(* Documents of millions of characters or nodes, in run-length form: a text is  *)
(* a sequence of [t: piece, n: how often], a document a sequence of [b: nodes,  *)
(* n: how often].  For small sizes the machines confirm the expanded form; the   *)
(* harness expands the same form for sizes no checker can hold.                  *)
(* Formats: strict, xml (the whole source), lenient (below html/head/body),       *)
(* reader: XML from a source that delivers blocks of a size, is interrupted after  *)
(* every so many of them, and ends, fails or stops there or half way; white space  *)
(* before the root shifts the blocks against the characters.                        *)
EXTENDS StrictHtml, CSV, Json
X == INSTANCE Xml

CONSTANTS Format, Sizes, OutFile
VARIABLES part, size
vars == <<part, size>>

R(t, n) == <<[t |-> t, n |-> n]>>
Once(t) == R(S(t), 1)
Nodes(b, n) == <<[b |-> b, n |-> n]>>
N(d, k, nm, a, t) == [d |-> d, k |-> k, n |-> Once(nm), a |-> a, t |-> t]
El(d, nm) == N(d, "el", nm, {}, <<>>)
Txt(d, t) == N(d, "text", "", {}, t)
Leafy(d, k, t) == N(d, k, "", {}, t)

IsXml == Format \in {"xml", "reader"}
Parts == IF Format = "reader" THEN {"text", "wide", "words", "value", "name", "siblings", "comment", "entities", "cdata", "pi", "gap"} ELSE
         {"text", "lines", "wide", "words", "value", "name", "aname", "siblings", "children", "mixed", "comment", "comments", "entities", "numeric", "gap", "tail"}
         \cup (IF IsXml THEN {"cdata", "pi"} ELSE {"script", "voids"})

\* everything sits in one element e
In(s, nodes) == [src |-> Once("<e>") \o s \o Once("</e>"), doc |-> Nodes(<<El(0, "e")>>, 1) \o nodes]
InTx(s, t) == In(s, Nodes(<<Txt(1, t)>>, 1))
\* the XML engine ends at names of 2^18 characters
Cap(n) == IF IsXml /\ part \in {"name", "aname"} /\ n > 262000 THEN 262000 ELSE n
Made(m) ==
  LET n == Cap(m) IN
  CASE part = "text" -> InTx(R(S("x"), n), R(S("x"), n))
    [] part = "lines" -> InTx(R(S("some words\n"), n), R(S("some words\n"), n))
    [] part = "wide" -> InTx(R(<<233, 26085, 128512>>, n), R(<<233, 26085, 128512>>, n))
    [] part = "words" -> In(R(S("<e>one two</e>"), n), Nodes(<<El(1, "e"), Txt(2, Once("one two"))>>, n))
    [] part = "value" -> [src |-> Once("<e k='") \o R(S("v w "), n) \o Once("' l='m'>t</e>"),
                          doc |-> Nodes(<<N(0, "el", "e", {<<Once("k"), R(S("v w "), n)>>, <<Once("l"), Once("m")>>}, <<>>), Txt(1, Once("t"))>>, 1)]
    [] part = "name" -> [src |-> Once("<") \o R(S("e"), n) \o Once(">t</") \o R(S("e"), n) \o Once(">"),
                         doc |-> Nodes(<<[El(0, "") EXCEPT !.n = R(S("e"), n)], Txt(1, Once("t"))>>, 1)]
    [] part = "aname" -> [src |-> Once("<e ") \o R(S("k"), n) \o Once("='1'>t</e>"),
                          doc |-> Nodes(<<N(0, "el", "e", {<<R(S("k"), n), Once("1")>>}, <<>>), Txt(1, Once("t"))>>, 1)]
    [] part = "siblings" -> In(R(S("<f></f>"), n), Nodes(<<El(1, "f")>>, n))
    [] part = "children" -> In(R(S("<f k='1'><g>t</g></f>"), n), Nodes(<<N(1, "el", "f", {<<Once("k"), Once("1")>>}, <<>>), El(2, "g"), Txt(3, Once("t"))>>, n))
    [] part = "mixed" -> In(R(S("t<f></f>"), n), Nodes(<<Txt(1, Once("t")), El(1, "f")>>, n))
    [] part = "comment" -> In(Once("<!--") \o R(S("c <f> "), n) \o Once("-->"), Nodes(<<Leafy(1, "comment", R(S("c <f> "), n))>>, 1))
    [] part = "comments" -> In(R(S("<!--c-->"), n), Nodes(<<Leafy(1, "comment", Once("c"))>>, n))
    [] part = "entities" -> InTx(R(S("a&amp;b&lt;"), n), R(S("a&b<"), n))
    [] part = "numeric" -> InTx(R(S("&#65;&#x1F600;"), n), R(<<65, 128512>>, n))
    [] part = "gap" -> [src |-> Once("<e") \o R(S(" "), n) \o Once("k='1'") \o R(S("\n"), n) \o Once(">t</e") \o R(S(" "), n) \o Once(">"),
                        doc |-> Nodes(<<N(0, "el", "e", {<<Once("k"), Once("1")>>}, <<>>), Txt(1, Once("t"))>>, 1)]
    [] part = "tail" -> In(R(S("x"), n) \o Once("<f>last</f>"), Nodes(<<Txt(1, R(S("x"), n)), El(1, "f"), Txt(2, Once("last"))>>, 1))
    [] part = "cdata" -> In(Once("<![CDATA[") \o R(S("a<b "), n) \o Once("]]>"), Nodes(<<Leafy(1, "cdata", R(S("a<b "), n))>>, 1))
    [] part = "pi" -> In(Once("<?p ") \o R(S("x"), n) \o Once("?><f/>"), Nodes(<<N(1, "pi", "p", {}, R(S("x"), n)), El(1, "f")>>, 1))
    [] part = "script" -> In(Once("<script>") \o R(S("a<b;"), n) \o Once("</script>"),
                             Nodes(IF Format = "strict" THEN <<N(1, "raw", "script", {}, R(S("a<b;"), n))>> ELSE <<El(1, "script"), Txt(2, R(S("a<b;"), n))>>, 1))
    [] part = "voids" -> In(R(S("<br>"), n), Nodes(<<N(1, "void", "br", {}, <<>>)>>, n))

Init == part \in Parts /\ size \in Sizes
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* ---- the expanded form, for the machines ----------------------------------------------
RECURSIVE Text(_)
Text(r) == IF r = <<>> THEN <<>> ELSE [i \in 1..(r[1].n * Len(r[1].t)) |-> r[1].t[((i - 1) % Len(r[1].t)) + 1]] \o Text(Tail(r))
Full(x) == [d |-> x.d, k |-> x.k, n |-> Text(x.n), a |-> {<<Text(q[1]), Text(q[2])>> : q \in x.a}, t |-> Text(x.t)]
RECURSIVE Doc(_)
Doc(r) == IF r = <<>> THEN <<>> ELSE [i \in 1..(r[1].n * Len(r[1].b)) |-> Full(r[1].b[((i - 1) % Len(r[1].b)) + 1])] \o Doc(Tail(r))
Plain(x) == [d |-> x.d, k |-> x.k, n |-> x.n, a |-> x.a, t |-> IF x.k = "pi" THEN (IF x.ns = <<>> THEN <<>> ELSE x.ns[1]) ELSE x.t]

Confirmed == size <= 9 =>
  LET m == Made(size)
  IN IF IsXml THEN LET g == X!Parse(Text(m.src)) IN g.verdict = "ok" /\ [j \in DOMAIN g.doc |-> Plain(g.doc[j])] = Doc(m.doc)
                                /\ Format = "reader" => /\ \A k \in 0..3 : X!Parse(Text(R(S(" "), k) \o m.src)).doc = g.doc
                                                        /\ X!Parse(SubSeq(Text(m.src), 1, Len(Text(m.src)) \div 2)).verdict = "bad"
     ELSE (Format = "lenient" /\ part = "script") \/ Parse(Text(m.src)) = [ok |-> TRUE, doc |-> Doc(m.doc), free |-> FALSE]

Plans == {[block |-> 0, every |-> 0, fin |-> "end"], [block |-> 1, every |-> 0, fin |-> "end"], [block |-> 1000, every |-> 7, fin |-> "end"], [block |-> 4096, every |-> 1, fin |-> "end"],
          [block |-> 8192, every |-> 0, fin |-> "end"], [block |-> 16384, every |-> 3, fin |-> "end"], [block |-> 65536, every |-> 0, fin |-> "end"], [block |-> 65535, every |-> 1, fin |-> "end"],
          [block |-> 8192, every |-> 0, fin |-> "fail"], [block |-> 0, every |-> 0, fin |-> "fail"], [block |-> 4096, every |-> 5, fin |-> "failhalf"], [block |-> 4096, every |-> 0, fin |-> "stophalf"]}
EmitReader == LET m == Made(size) IN \A k \in 0..3 : \A pl \in Plans :
  CSVWrite("%1$s", <<ToJson([op |-> "giant", fmt |-> Format, src |-> R(S(" "), k) \o m.src, doc |-> m.doc, plan |-> pl,
                             want |-> IF pl.fin = "end" THEN [same |-> TRUE, rejected |-> FALSE] ELSE [same |-> FALSE, rejected |-> TRUE]])>>, OutFile)
Emit == size > 9 => IF Format = "reader" THEN EmitReader
                    ELSE LET m == Made(size) IN CSVWrite("%1$s", <<ToJson([op |-> "giant", fmt |-> Format, src |-> m.src, doc |-> m.doc, want |-> [same |-> TRUE]])>>, OutFile)
===============================================================================

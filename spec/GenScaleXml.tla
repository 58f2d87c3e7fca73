----------------------------- MODULE GenScaleXml -----------------------------
(* Every part of an XML document made as large as one likes; see GenScale.      *)
EXTENDS Xml, CSV, Json

CONSTANTS Family, Sizes, OutFile
VARIABLES part, size
vars == <<part, size>>

Run(c, n) == [i \in 1..n |-> c]
Times(t, n) == [i \in 1..n * Len(t) |-> t[((i - 1) % Len(t)) + 1]]
\* in halves, so that a long list does not exhaust the checker's stack
Joined(q) == LET RECURSIVE Half(_, _)
                 Half(lo, hi) == IF lo > hi THEN <<>> ELSE IF lo = hi THEN q[lo]
                                 ELSE LET m == (lo + hi) \div 2 IN Half(lo, m) \o Half(m + 1, hi)
             IN Half(1, Len(q))
Dec(v) == LET RECURSIVE Ds(_)
              Ds(x) == IF x < 10 THEN <<48 + x>> ELSE Ds(x \div 10) \o <<48 + (x % 10)>>
          IN Ds(v)
N(d, k, n, t) == [d |-> d, k |-> k, n |-> n, a |-> {}, t |-> t, p |-> <<>>, ns |-> <<>>, nm |-> {}]
El(d, n) == N(d, "el", n, <<>>)
ElA(d, n, a) == [El(d, n) EXCEPT !.a = a]
Text(d, t) == N(d, "text", <<>>, t)
Pi(d, n, t) == [N(d, "pi", n, <<>>) EXCEPT !.ns = t]
Each(f(_), n) == [i \in 1..n |-> f(i)]
Pair(f(_), g(_), n) == [i \in 1..2 * n |-> IF i % 2 = 1 THEN f((i + 1) \div 2) ELSE g(i \div 2)]
a == S("a")
b == S("b")
x == 120
W(s, doc) == [src |-> s, doc |-> doc]
InA(s, doc) == W(S("<a>") \o s \o S("</a>"), <<El(0, a)>> \o doc)
InT(s, t) == InA(s, <<Text(1, t)>>)
AttrOf(s, as) == W(S("<a") \o s \o S(">t</a>"), <<ElA(0, a, as), Text(1, S("t"))>>)
Space(p, u, sc, s) == W(s, <<[El(0, a) EXCEPT !.p = p, !.ns = <<u>>, !.nm = sc]>>)

Parts ==
  CASE Family = "structure" -> {"name", "dots", "text", "siblings", "children", "mixed", "depth", "gap", "selfgap", "lead", "trail", "blank", "uni"}
    [] Family = "attrs" -> {"aname", "dq", "sq", "before", "eqleft", "eqright", "after", "count", "blankvalue", "valuegt", "lines"}
    [] Family = "refs" -> {"decimal", "hex", "many", "named", "plain", "inattr", "adjacent", "numbers"}
    [] Family = "content" -> {"comment", "dashes", "cdata", "brackets", "cdatas", "pi", "pitarget", "pis", "comments", "outer", "gt", "lines", "quest", "split"}
    [] Family = "ns" -> {"prefix", "uri", "default", "bindings", "inherited", "pname", "elprefix", "shadow"}
Made(n) ==
  CASE Family = "structure" ->
        (CASE part = "name" -> W(S("<") \o Run(97, n) \o S(">t</") \o Run(97, n) \o S(">"), <<El(0, Run(97, n)), Text(1, S("t"))>>)
           [] part = "dots" -> W(S("<A.") \o Run(49, n) \o S("/>"), <<El(0, S("A.") \o Run(49, n))>>)
           [] part = "text" -> InT(Run(x, n), Run(x, n))
           [] part = "siblings" -> InA(Times(S("<b/>"), n), Each(LAMBDA i : El(1, b), n))
           [] part = "children" -> InA(Times(S("<b>t</b>"), n), Pair(LAMBDA i : El(1, b), LAMBDA i : Text(2, S("t")), n))
           [] part = "mixed" -> InA(Times(S("t<b/>"), n), Pair(LAMBDA i : Text(1, S("t")), LAMBDA i : El(1, b), n))
           [] part = "depth" -> LET m == IF n > 2100 THEN 2100 ELSE n IN W(Times(S("<a>"), m) \o S("t") \o Times(S("</a>"), m), Each(LAMBDA i : El(i - 1, a), m) \o <<Text(m, S("t"))>>)
           [] part = "gap" -> W(S("<a>t</a") \o Run(SP, n) \o S(">"), <<El(0, a), Text(1, S("t"))>>)
           [] part = "selfgap" -> W(S("<a") \o Run(LF, n) \o S("/>"), <<El(0, a)>>)
           [] part = "lead" -> W(Run(SP, n) \o S("<a/>"), <<El(0, a)>>)
           [] part = "trail" -> W(S("<a/>") \o Run(LF, n), <<El(0, a)>>)
           [] part = "blank" -> InA(S("<b/>") \o Run(SP, n) \o S("<b/>"), <<El(1, b), El(1, b)>>)
           [] part = "uni" -> InT(Run(233, n) \o Run(128512, n), Run(233, n) \o Run(128512, n)))
    [] Family = "attrs" ->
        (CASE part = "aname" -> AttrOf(S(" ") \o Run(97, n) \o S("='1'"), {<<Run(97, n), S("1")>>})
           [] part = "dq" -> AttrOf(S(" k=\"") \o Run(x, n) \o S("\""), {<<S("k"), Run(x, n)>>})
           [] part = "sq" -> AttrOf(S(" k='") \o Run(x, n) \o S("' l='m'"), {<<S("k"), Run(x, n)>>, <<S("l"), S("m")>>})
           [] part = "before" -> AttrOf(Run(SP, n) \o S("k='1'"), {<<S("k"), S("1")>>})
           [] part = "eqleft" -> AttrOf(S(" k") \o Run(TAB, n) \o S("='1'"), {<<S("k"), S("1")>>})
           [] part = "eqright" -> AttrOf(S(" k=") \o Run(LF, n) \o S("'1'"), {<<S("k"), S("1")>>})
           [] part = "after" -> AttrOf(S(" k='1'") \o Run(SP, n), {<<S("k"), S("1")>>})
           [] part = "count" -> AttrOf(Joined(Each(LAMBDA i : S(" k") \o Dec(i) \o S("='") \o Dec(i) \o S("'"), n)), {<<S("k") \o Dec(i), Dec(i)>> : i \in 1..n})
           [] part = "blankvalue" -> AttrOf(S(" k='") \o Run(SP, n) \o S("'"), {<<S("k"), Run(SP, n)>>})
           [] part = "valuegt" -> AttrOf(S(" k='") \o Times(S("/>"), n) \o S("'"), {<<S("k"), Times(S("/>"), n)>>})
           [] part = "lines" -> AttrOf(S(" k='") \o Times(S("\"= "), n) \o S("'"), {<<S("k"), Times(S("\"= "), n)>>}))
    [] Family = "refs" ->
        (CASE part = "decimal" -> InT(S("&#") \o Run(48, n) \o S("65;"), S("A"))
           [] part = "hex" -> InT(S("&#x") \o Run(48, n) \o S("1F600;"), <<128512>>)
           [] part = "many" -> InT(Times(S("&lt;"), n), Run(LT, n))
           [] part = "named" -> InT(S("&amp;") \o Run(x, n) \o S("&gt;"), S("&") \o Run(x, n) \o S(">"))
           [] part = "plain" -> InT(Run(x, n) \o S("&#65;"), Run(x, n) \o S("A"))
           [] part = "inattr" -> AttrOf(S(" k='") \o Times(S("&apos; "), n) \o S("'"), {<<S("k"), Times(S("' "), n)>>})
           [] part = "adjacent" -> InT(Times(S("&#65;&lt;"), n), Times(S("A<"), n))
           [] part = "numbers" -> InT(Joined(Each(LAMBDA i : S("&#") \o Dec(12288 + (i % 32768)) \o S(";"), n)), Each(LAMBDA i : 12288 + (i % 32768), n)))
    [] Family = "content" ->
        (CASE part = "comment" -> InA(S("<!--") \o Run(x, n) \o S("-->"), <<N(1, "comment", <<>>, Run(x, n))>>)
           [] part = "dashes" -> InA(S("<!--") \o Times(S("- "), n) \o S("-->"), <<N(1, "comment", <<>>, Times(S("- "), n))>>)
           [] part = "cdata" -> InA(S("<![CDATA[") \o Run(LT, n) \o S("]]>"), <<N(1, "cdata", <<>>, Run(LT, n))>>)
           [] part = "brackets" -> InA(S("<![CDATA[") \o Run(93, n) \o S("]]>"), <<N(1, "cdata", <<>>, Run(93, n))>>)
           [] part = "cdatas" -> InA(Times(S("<![CDATA[t]]>"), n), Each(LAMBDA i : N(1, "cdata", <<>>, S("t")), n))
           [] part = "pi" -> InA(S("<?p ") \o Run(x, n) \o S("?>"), <<Pi(1, S("p"), <<Run(x, n)>>)>>)
           [] part = "pitarget" -> InA(S("<?") \o Run(112, n) \o S("?>"), <<Pi(1, Run(112, n), <<>>)>>)
           [] part = "pis" -> InA(Times(S("<?p x?>"), n), Each(LAMBDA i : Pi(1, S("p"), <<S("x")>>), n))
           [] part = "comments" -> InA(Times(S("<!--c-->"), n), Each(LAMBDA i : N(1, "comment", <<>>, S("c")), n))
           [] part = "outer" -> W(Times(S("<!--c-->\n"), n) \o S("<a/>") \o Times(S("\n<!--d-->"), n),
                                  Each(LAMBDA i : N(0, "comment", <<>>, S("c")), n) \o <<El(0, a)>> \o Each(LAMBDA i : N(0, "comment", <<>>, S("d")), n))
           [] part = "gt" -> InT(Run(GT, n), Run(GT, n))
           [] part = "lines" -> InT(Times(S("a\n  "), n), Times(S("a\n  "), n))
           [] part = "quest" -> InA(S("<?p ") \o Run(63, n) \o S(" ?>"), <<Pi(1, S("p"), <<Run(63, n) \o S(" ")>>)>>)
           [] part = "split" -> InA(Times(S("t<!--c-->"), n), Pair(LAMBDA i : Text(1, S("t")), LAMBDA i : N(1, "comment", <<>>, S("c")), n)))
    [] Family = "ns" ->
        (CASE part = "prefix" -> Space(<<Run(112, n)>>, S("u"), {<<Run(112, n), S("u")>>}, S("<") \o Run(112, n) \o S(":a xmlns:") \o Run(112, n) \o S("='u'/>"))
           [] part = "uri" -> Space(<<S("p")>>, Run(117, n), {<<S("p"), Run(117, n)>>}, S("<p:a xmlns:p='") \o Run(117, n) \o S("'/>"))
           [] part = "default" -> Space(<<>>, Run(117, n), {<<<<>>, Run(117, n)>>}, S("<a xmlns='") \o Run(117, n) \o S("'/>"))
           [] part = "bindings" -> Space(<<S("p1")>>, S("u1"), {<<S("p") \o Dec(i), S("u") \o Dec(i)>> : i \in 1..n},
                                         S("<p1:a") \o Joined(Each(LAMBDA i : S(" xmlns:p") \o Dec(i) \o S("='u") \o Dec(i) \o S("'"), n)) \o S("/>"))
           [] part = "inherited" -> LET m == IF n > 2100 THEN 2100 ELSE n
                                        el(i) == [El(i - 1, b) EXCEPT !.p = <<S("p")>>, !.ns = <<S("u")>>, !.nm = {<<S("p"), S("u")>>}]
                                    IN W(S("<p:b xmlns:p='u'>") \o Times(S("<p:b>"), m - 1) \o Times(S("</p:b>"), m), Each(el, m))
           [] part = "shadow" -> LET m == IF n > 1100 THEN 1100 ELSE n
                                     u(i) == S("u") \o Dec(i)
                                     el(i) == [El(i - 1, b) EXCEPT !.p = <<S("p")>>, !.ns = <<u(i)>>, !.nm = {<<S("p"), u(i)>>}]
                                 IN W(Joined(Each(LAMBDA i : S("<p:b xmlns:p='") \o u(i) \o S("'>"), m)) \o Times(S("</p:b>"), m), Each(el, m))
           [] part = "pname" -> Space(<<S("p")>>, S("u"), {<<S("p"), S("u")>>}, S("<p:a xmlns:p='u'") \o Run(SP, n) \o S("/>"))
           [] part = "elprefix" -> W(S("<a xmlns:p='u'>") \o Times(S("<p:b/><b/>"), n) \o S("</a>"),
                                     <<[El(0, a) EXCEPT !.nm = {<<S("p"), S("u")>>}]>> \o
                                     Pair(LAMBDA i : [El(1, b) EXCEPT !.p = <<S("p")>>, !.ns = <<S("u")>>, !.nm = {<<S("p"), S("u")>>}],
                                          LAMBDA i : [El(1, b) EXCEPT !.nm = {<<S("p"), S("u")>>}], n)))

Init == part \in Parts /\ size \in Sizes
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Want(m) == [verdict |-> "ok", free |-> FALSE, doc |-> m.doc]
Confirmed == size <= 33 => LET m == Made(size) IN Parse(m.src) = Want(m)
Emit == LET m == Made(size) IN CSVWrite("%1$s", <<ToJson([op |-> "xml", src |-> m.src, want |-> Want(m)])>>, OutFile)
\* damage at either end of it: never a document
Damage(t) == {t \o S("<"), t \o S("</q>"), t \o S("<q>"), t \o S("<q/>"), t \o S("x"), t \o S("&amp;"), t \o S("<!--"), S("</q>") \o t, S("<q>") \o t, S("x") \o t} \cup (IF Family = "content" THEN {} ELSE {S("<!--") \o t \o S("--")})
Bad == [verdict |-> "bad", free |-> FALSE, doc |-> <<>>]
DamageConfirmed == size <= 9 => \A t \in Damage(Made(size).src) : Parse(t).verdict = "bad"
EmitDamage == \A t \in Damage(Made(size).src) : CSVWrite("%1$s", <<ToJson([op |-> "xml", src |-> t, want |-> Bad])>>, OutFile)
===============================================================================

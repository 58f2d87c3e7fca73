----------------------------- MODULE GenScaleTree -----------------------------
(* Every part of lenient HTML markup made as large as one likes; see GenScale.   *)
(* toks is the markup as tokens, for the tree construction machine to confirm.    *)
EXTENDS HtmlTree, CSV, Json

CONSTANTS Family, Sizes, OutFile
VARIABLES part, size
vars == <<part, size>>

Run(c, n) == [i \in 1..n |-> c]
Times(t, n) == [i \in 1..n * Len(t) |-> t[((i - 1) % Len(t)) + 1]]
Joined(q) == LET RECURSIVE Half(_, _)
                 Half(lo, hi) == IF lo > hi THEN <<>> ELSE IF lo = hi THEN q[lo]
                                 ELSE LET m == (lo + hi) \div 2 IN Half(lo, m) \o Half(m + 1, hi)
             IN Half(1, Len(q))
Dec(v) == LET RECURSIVE Ds(_)
              Ds(y) == IF y < 10 THEN <<48 + y>> ELSE Ds(y \div 10) \o <<48 + (y % 10)>>
          IN Ds(v)
N(d, k, n, a, t) == [d |-> d, k |-> k, n |-> n, a |-> a, t |-> t]
Elm(d, n) == N(d, "el", S(n), {}, <<>>)
Vd(d, n) == N(d, "void", S(n), {}, <<>>)
Tx(d, t) == N(d, "text", <<>>, {}, t)
Cm(d, t) == N(d, "comment", <<>>, {}, t)
Each(f(_), n) == [i \in 1..n |-> f(i)]
Pair(f(_), g(_), n) == [i \in 1..2 * n |-> IF i % 2 = 1 THEN f((i + 1) \div 2) ELSE g(i \div 2)]
x == 120
B(n) == TokS("start", n, {}, <<>>)
BA(n, a) == TokS("start", n, a, <<>>)
E(n) == TokS("end", n, {}, <<>>)
X(t) == TokS("text", "", {}, t)
C(t) == TokS("comment", "", {}, t)
R(n, t) == TokS("raw", n, {}, t)
Top == <<Elm(0, "html"), Elm(1, "head")>>
In(toks, content) == [toks |-> toks, src |-> FALSE, doc |-> Top \o <<Elm(1, "body")>> \o content]
\* the source, where the tokens cannot spell it
As(src, content) == [toks |-> <<>>, src |-> src, doc |-> Top \o <<Elm(1, "body")>> \o content]
Span(inner, content) == In(<<B("span")>> \o inner \o <<E("span")>>, <<Elm(2, "span")>> \o content)
Cap(n, m) == IF n > m THEN m ELSE n

Parts ==
  CASE Family = "ordinary" -> {"text", "roottext", "siblings", "children", "mixed", "depth", "unclosed", "comment", "comments", "voids", "voidtext", "strays", "blank", "lead", "crossed", "attrs", "value", "name", "gt", "mismatch"}
    [] Family = "repairs" -> {"paragraphs", "items", "terms", "options", "cells", "rows", "raw", "texts", "headings", "breaks", "bodies", "refs", "numbers", "fostered", "style", "tables"}
Made(n) ==
  CASE Family = "ordinary" ->
        (CASE part = "text" -> Span(<<X(Run(x, n))>>, <<Tx(3, Run(x, n))>>)
           [] part = "roottext" -> In(<<X(Run(x, n))>>, <<Tx(2, Run(x, n))>>)
           [] part = "siblings" -> In(Times(<<B("span"), E("span")>>, n), Each(LAMBDA i : Elm(2, "span"), n))
           [] part = "children" -> In(<<B("div")>> \o Times(<<B("x-y"), X(<<x>>), E("x-y")>>, n) \o <<E("div")>>, <<Elm(2, "div")>> \o Pair(LAMBDA i : Elm(3, "x-y"), LAMBDA i : Tx(4, <<x>>), n))
           [] part = "mixed" -> Span(Times(<<X(<<x>>), B("img")>>, n), Pair(LAMBDA i : Tx(3, <<x>>), LAMBDA i : Vd(3, "img"), n))
           [] part = "depth" -> LET m == Cap(n, 2100) IN In(Times(<<B("div")>>, m) \o <<X(<<x>>)>> \o Times(<<E("div")>>, m), Each(LAMBDA i : Elm(i + 1, "div"), m) \o <<Tx(m + 2, <<x>>)>>)
           [] part = "unclosed" -> LET m == Cap(n, 2100) IN In(Times(<<B("span")>>, m) \o <<X(<<x>>)>>, Each(LAMBDA i : Elm(i + 1, "span"), m) \o <<Tx(m + 2, <<x>>)>>)
           [] part = "comment" -> Span(<<C(Run(x, n))>>, <<Cm(3, Run(x, n))>>)
           [] part = "comments" -> Span(Times(<<C(<<x>>)>>, n), Each(LAMBDA i : Cm(3, <<x>>), n))
           [] part = "voids" -> In(Times(<<B("br")>>, n), Each(LAMBDA i : Vd(2, "br"), n))
           [] part = "voidtext" -> In(Times(<<B("wbr"), X(<<x>>)>>, n), Pair(LAMBDA i : Vd(2, "wbr"), LAMBDA i : Tx(2, <<x>>), n))
           [] part = "strays" -> Span(Times(<<E("cite"), E("div")>>, n) \o <<X(<<x>>)>>, <<Tx(3, <<x>>)>>)
           [] part = "blank" -> Span(<<X(Run(LF, n))>>, <<Tx(3, Run(LF, n))>>)
           [] part = "lead" -> In(<<X(Run(SP, n)), B("span"), X(Run(SP, n))>>, <<Elm(2, "span"), Tx(3, Run(SP, n))>>)
           [] part = "crossed" -> In(Times(<<B("div"), B("span"), E("div")>>, n), Pair(LAMBDA i : Elm(2, "div"), LAMBDA i : Elm(3, "span"), n))
           [] part = "attrs" -> As(S("<span") \o Joined(Each(LAMBDA i : S(" a") \o Dec(i) \o S("=") \o Dec(i), n)) \o S(">"),
                                   <<[Elm(2, "span") EXCEPT !.a = {<<S("a") \o Dec(i), Dec(i)>> : i \in 1..n}]>>)
           [] part = "value" -> As(S("<span a='") \o Run(x, n) \o S("' b=") \o Run(x, n) \o S(">"), <<[Elm(2, "span") EXCEPT !.a = {<<S("a"), Run(x, n)>>, <<S("b"), Run(x, n)>>}]>>)
           [] part = "name" -> As(S("<X-") \o Run(88, n) \o S(" ") \o Run(88, n) \o S(">t"), <<[Elm(2, "x") EXCEPT !.n = S("x-") \o Run(x, n), !.a = {<<Run(x, n), <<>>>>}], Tx(3, S("t"))>>)
           [] part = "gt" -> Span(<<X(Run(GT, n))>>, <<Tx(3, Run(GT, n))>>)
           [] part = "mismatch" -> LET m == Cap(n, 2100) IN In(<<B("x-y")>> \o Times(<<B("q")>>, m) \o <<E("x-y"), X(<<x>>)>>, <<Elm(2, "x-y")>> \o Each(LAMBDA i : Elm(i + 2, "q"), m) \o <<Tx(2, <<x>>)>>))
    [] Family = "repairs" ->
        (CASE part = "paragraphs" -> In(Times(<<B("p"), X(<<x>>)>>, n), Pair(LAMBDA i : Elm(2, "p"), LAMBDA i : Tx(3, <<x>>), n))
           [] part = "items" -> In(<<B("ul")>> \o Times(<<B("li"), X(<<x>>)>>, n), <<Elm(2, "ul")>> \o Pair(LAMBDA i : Elm(3, "li"), LAMBDA i : Tx(4, <<x>>), n))
           [] part = "terms" -> In(<<B("dl")>> \o Times(<<B("dt"), B("dd")>>, n), <<Elm(2, "dl")>> \o Pair(LAMBDA i : Elm(3, "dt"), LAMBDA i : Elm(3, "dd"), n))
           [] part = "options" -> In(<<B("select")>> \o Times(<<B("option"), X(<<x>>)>>, n), <<Elm(2, "select")>> \o Pair(LAMBDA i : Elm(3, "option"), LAMBDA i : Tx(4, <<x>>), n))
           [] part = "cells" -> In(<<B("table"), B("tr")>> \o Times(<<B("td"), X(<<x>>)>>, n), <<Elm(2, "table"), Elm(3, "tbody"), Elm(4, "tr")>> \o Pair(LAMBDA i : Elm(5, "td"), LAMBDA i : Tx(6, <<x>>), n))
           [] part = "rows" -> In(<<B("table")>> \o Times(<<B("tr"), B("td")>>, n), <<Elm(2, "table"), Elm(3, "tbody")>> \o Pair(LAMBDA i : Elm(4, "tr"), LAMBDA i : Elm(5, "td"), n))
           [] part = "raw" -> [toks |-> <<R("title", Run(x, n)), B("span")>>, src |-> FALSE, doc |-> Top \o <<Elm(2, "title"), Tx(3, Run(x, n)), Elm(1, "body"), Elm(2, "span")>>]
           [] part = "texts" -> In(<<R("textarea", Run(LF, n))>>, <<Elm(2, "textarea")>> \o (IF n = 1 THEN <<>> ELSE <<Tx(3, Run(LF, n - 1))>>))
           [] part = "headings" -> In(Times(<<B("h1"), X(<<x>>), E("h2")>>, n), Pair(LAMBDA i : Elm(2, "h1"), LAMBDA i : Tx(3, <<x>>), n))
           [] part = "breaks" -> In(<<B("div")>> \o Times(<<E("p")>>, n), <<Elm(2, "div")>> \o Each(LAMBDA i : Elm(3, "p"), n))
           [] part = "bodies" -> In(Times(<<B("body"), B("html"), B("head"), E("br")>>, n), Each(LAMBDA i : Vd(2, "br"), n))
           [] part = "refs" -> As(S("<span a='") \o Times(S("&lt;"), n) \o S("'>") \o Times(S("&amp;&#65;"), n), <<[Elm(2, "span") EXCEPT !.a = {<<S("a"), Run(LT, n)>>}], Tx(3, Times(S("&A"), n))>>)
           [] part = "numbers" -> As(S("<span>") \o Joined(Each(LAMBDA i : S("&#") \o Dec(12288 + (i % 32768)) \o S(";"), n)), <<Elm(2, "span"), Tx(3, Each(LAMBDA i : 12288 + (i % 32768), n))>>)
           [] part = "fostered" -> In(<<B("table"), X(Run(x, n)), B("tr")>>, <<Tx(2, Run(x, n)), Elm(2, "table"), Elm(3, "tbody"), Elm(4, "tr")>>)
           [] part = "style" -> In(<<B("span"), R("script", Run(LT, n))>>, <<Elm(2, "span"), Elm(3, "script"), Tx(4, Run(LT, n))>>)
           [] part = "tables" -> In(Times(<<B("table")>>, n), Each(LAMBDA i : Elm(2, "table"), n)))

Init == part \in Parts /\ size \in Sizes
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Machine(toks) == FoldLeft(LAMBDA acc, t : Token(acc, t), Empty, toks)
Confirmed == size <= 17 => LET m == Made(size) IN m.toks # <<>> => Document(Machine(m.toks)) = m.doc
Emit == LET m == Made(size)
            s == IF m.toks = <<>> THEN m.src ELSE Joined([i \in DOMAIN m.toks |-> Written(m.toks[i])])
        IN CSVWrite("%1$s", <<ToJson([op |-> "lenient", src |-> s, want |-> [ok |-> TRUE, free |-> FALSE, doc |-> m.doc]])>>, OutFile)
===============================================================================

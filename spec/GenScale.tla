------------------------------- MODULE GenScale -------------------------------
(* Every part of a strict HTML document made as large as one likes: one long    *)
(* name, value, text, comment, run of white space, or many of a thing.  What    *)
(* the document has to be is said directly; for small sizes the machine          *)
(* confirms it.                                                                  *)
EXTENDS StrictHtml, CSV, Json

CONSTANTS Family, Sizes, OutFile
VARIABLES part, size
vars == <<part, size>>

Run(c, n) == [i \in 1..n |-> c]
Times(t, n) == [i \in 1..n * Len(t) |-> t[((i - 1) % Len(t)) + 1]]
\* in halves, so that a long list does not exhaust the checker's stack
Joined(q) == LET RECURSIVE Half(_, _)
                 Half(lo, hi) == IF lo > hi THEN <<>> ELSE IF lo = hi THEN q[lo]
                                 ELSE LET m == (lo + hi) \div 2 IN Half(lo, m) \o Half(m + 1, hi)
             IN Half(1, Len(q))
Dec(v) == LET RECURSIVE Ds(_)
              Ds(x) == IF x < 10 THEN <<48 + x>> ELSE Ds(x \div 10) \o <<48 + (x % 10)>>
          IN Ds(v)
N(d, k, n, a, t) == [d |-> d, k |-> k, n |-> n, a |-> a, t |-> t]
El(d, n) == N(d, "el", n, {}, <<>>)
ElA(d, n, a) == N(d, "el", n, a, <<>>)
Text(d, t) == N(d, "text", <<>>, {}, t)
Each(f(_), n) == [i \in 1..n |-> f(i)]
Pair(f(_), g(_), n) == [i \in 1..2 * n |-> IF i % 2 = 1 THEN f((i + 1) \div 2) ELSE g(i \div 2)]
p == S("p")
b == S("b")
x == 120
W(s, doc) == [src |-> s, doc |-> doc]
InP(s, t) == W(S("<p>") \o s \o S("</p>"), <<El(0, p), Text(1, t)>>)
AttrOf(s, a) == W(S("<p") \o s \o S(">t</p>"), <<ElA(0, p, a), Text(1, S("t"))>>)
Raw(nm, s, t) == W(S("<") \o nm \o S(">") \o s \o S("</") \o nm \o S(">"), <<N(0, "raw", nm, {}, t)>>)
Leaf(k, open, s, close) == W(S(open) \o s \o S(close) \o S("<b/>"), <<N(0, k, <<>>, {}, s), El(0, b)>>)

Parts ==
  CASE Family = "structure" -> {"name", "upper", "digits", "text", "roottext", "blank", "gt", "siblings", "children", "mixed", "closed", "empties", "depth", "gap", "between"}
    [] Family = "attrs" -> {"aname", "dq", "sq", "uq", "bare", "before", "eqleft", "eqright", "after", "count", "bares", "mixed", "blankvalue", "valuegt", "selfgap"}
    [] Family = "refs" -> {"decimal", "hex", "many", "named", "plain", "inattr", "adjacent", "amps", "numbers"}
    [] Family = "raw" -> {"script", "style", "angles", "ends", "nearly", "trim", "lines", "many", "closegap", "attr"}
    [] Family = "void" -> {"many", "gap", "attr", "longer", "inside", "between", "slashes"}
    [] Family = "content" -> {"comment", "dashes", "doctype", "comments", "text", "lines", "doctypes", "commentgt"}
Made(n) ==
  CASE Family = "structure" ->
        (CASE part = "name" -> W(S("<") \o Run(97, n) \o S(">t</") \o Run(97, n) \o S(">"), <<El(0, Run(97, n)), Text(1, S("t"))>>)
           [] part = "upper" -> W(S("<") \o Run(65, n) \o S(">t</") \o Run(97, n) \o S(">"), <<El(0, Run(65, n)), Text(1, S("t"))>>)
           [] part = "digits" -> W(S("<h-") \o Run(49, n) \o S("/>"), <<El(0, S("h-") \o Run(49, n))>>)
           [] part = "text" -> InP(Run(x, n), Run(x, n))
           [] part = "roottext" -> W(Run(x, n) \o S("<b/>") \o Run(x, n), <<Text(0, Run(x, n)), El(0, b), Text(0, Run(x, n))>>)
           [] part = "blank" -> InP(Run(32, n), Run(32, n))
           [] part = "gt" -> InP(Run(GT, n), Run(GT, n))
           [] part = "siblings" -> W(Times(S("<p></p>"), n), Each(LAMBDA i : El(0, p), n))
           [] part = "children" -> W(S("<b>") \o Times(S("<p>t</p>"), n) \o S("</b>"), <<El(0, b)>> \o Pair(LAMBDA i : El(1, p), LAMBDA i : Text(2, S("t")), n))
           [] part = "mixed" -> W(S("<p>") \o Times(S("t<b/>"), n) \o S("</p>"), <<El(0, p)>> \o Pair(LAMBDA i : Text(1, S("t")), LAMBDA i : El(1, b), n))
           [] part = "closed" -> W(Times(S("<b/>"), n), Each(LAMBDA i : El(0, b), n))
           [] part = "empties" -> W(S("<p>") \o Times(S("<b></b> "), n) \o S("</p>"), <<El(0, p)>> \o Pair(LAMBDA i : El(1, b), LAMBDA i : Text(1, S(" ")), n))
           [] part = "depth" -> LET m == IF n > 2100 THEN 2100 ELSE n IN W(Times(S("<p>"), m) \o S("t") \o Times(S("</p>"), m), Each(LAMBDA i : El(i - 1, p), m) \o <<Text(m, S("t"))>>)
           [] part = "gap" -> W(S("<p>t</p") \o Run(SP, n) \o S("><b") \o Run(LF, n) \o S("></b>"), <<El(0, p), Text(1, S("t")), El(0, b)>>)
           [] part = "between" -> W(S("<p></p>") \o Run(LF, n) \o S("<b/>"), <<El(0, p), Text(0, Run(LF, n)), El(0, b)>>))
    [] Family = "attrs" ->
        (CASE part = "aname" -> AttrOf(S(" ") \o Run(97, n) \o S("='1'"), {<<Run(97, n), S("1")>>})
           [] part = "dq" -> AttrOf(S(" a=\"") \o Run(x, n) \o S("\""), {<<S("a"), Run(x, n)>>})
           [] part = "sq" -> AttrOf(S(" a='") \o Run(x, n) \o S("' b"), {<<S("a"), Run(x, n)>>, <<b, <<>>>>})
           [] part = "uq" -> AttrOf(S(" a=") \o Run(x, n) \o S(" b=c"), {<<S("a"), Run(x, n)>>, <<b, S("c")>>})
           [] part = "bare" -> AttrOf(S(" ") \o Run(x, n), {<<Run(x, n), <<>>>>})
           [] part = "before" -> AttrOf(Run(SP, n) \o S("a=1"), {<<S("a"), S("1")>>})
           [] part = "eqleft" -> AttrOf(S(" a") \o Run(TAB, n) \o S("='1'"), {<<S("a"), S("1")>>})
           [] part = "eqright" -> AttrOf(S(" a=") \o Run(LF, n) \o S("'1'"), {<<S("a"), S("1")>>})
           [] part = "after" -> AttrOf(S(" a='1'") \o Run(SP, n), {<<S("a"), S("1")>>})
           [] part = "count" -> AttrOf(Joined(Each(LAMBDA i : S(" a") \o Dec(i) \o S("='") \o Dec(i) \o S("'"), n)), {<<S("a") \o Dec(i), Dec(i)>> : i \in 1..n})
           [] part = "bares" -> AttrOf(Joined(Each(LAMBDA i : S(" a") \o Dec(i), n)), {<<S("a") \o Dec(i), <<>>>> : i \in 1..n})
           [] part = "mixed" -> AttrOf(Joined(Each(LAMBDA i : CASE i % 4 = 0 -> S(" a") \o Dec(i) [] i % 4 = 1 -> S(" a") \o Dec(i) \o S("=v") [] i % 4 = 2 -> S("\n\ta") \o Dec(i) \o S(" = \"v\"") [] i % 4 = 3 -> S(" a") \o Dec(i) \o S("='v'"), n)),
                                       {<<S("a") \o Dec(i), IF i % 4 = 0 THEN <<>> ELSE S("v")>> : i \in 1..n})
           [] part = "blankvalue" -> AttrOf(S(" a='") \o Run(SP, n) \o S("'"), {<<S("a"), Run(SP, n)>>})
           [] part = "valuegt" -> AttrOf(S(" a='") \o Times(S("/>"), n) \o S("'"), {<<S("a"), Times(S("/>"), n)>>})
           [] part = "selfgap" -> W(S("<p a='1'") \o Run(SP, n) \o S("/><b") \o Run(CR, n) \o S("/>"), <<ElA(0, p, {<<S("a"), S("1")>>}), El(0, b)>>))
    [] Family = "refs" ->
        (CASE part = "decimal" -> InP(S("&#") \o Run(48, n) \o S("65;"), S("A"))
           [] part = "hex" -> InP(S("&#x") \o Run(48, n) \o S("1F600;"), <<128512>>)
           [] part = "many" -> InP(Times(S("&lt;"), n), Run(LT, n))
           [] part = "named" -> InP(S("&amp;") \o Run(x, n) \o S("&copy;"), S("&") \o Run(x, n) \o <<169>>)
           [] part = "plain" -> InP(Run(x, n) \o S("&#65;"), Run(x, n) \o S("A"))
           [] part = "inattr" -> AttrOf(S(" a='") \o Times(S("&quot; "), n) \o S("'"), {<<S("a"), Times(S("\" "), n)>>})
           [] part = "adjacent" -> InP(Times(S("&#65;&lt;"), n), Times(S("A<"), n))
           [] part = "amps" -> InP(Times(S("& "), n), Times(S("& "), n))
           [] part = "numbers" -> InP(Joined(Each(LAMBDA i : S("&#") \o Dec(12288 + (i % 32768)) \o S(";"), n)), Each(LAMBDA i : 12288 + (i % 32768), n)))
    [] Family = "raw" ->
        (CASE part = "script" -> Raw(S("script"), Run(x, n), Run(x, n))
           [] part = "style" -> Raw(S("STYLE"), Run(x, n), Run(x, n))
           [] part = "angles" -> Raw(S("script"), Run(LT, n), Run(LT, n))
           [] part = "ends" -> Raw(S("script"), Times(S("</"), n), Times(S("</"), n))
           [] part = "nearly" -> Raw(S("style"), Times(S("</styl"), n), Times(S("</styl"), n))
           [] part = "trim" -> Raw(S("script"), Run(LF, n) \o S("x") \o Run(SP, n), S("x"))
           [] part = "lines" -> Raw(S("script"), S("x") \o Times(S("\n\"</p>"), n), S("x") \o Times(S("\n\"</p>"), n))
           [] part = "many" -> W(Times(S("<script>a</script>"), n), Each(LAMBDA i : N(0, "raw", S("script"), {}, S("a")), n))
           [] part = "closegap" -> W(S("<style>a</style") \o Run(SP, n) \o S("><b/>"), <<N(0, "raw", S("style"), {}, S("a")), El(0, b)>>)
           [] part = "attr" -> W(S("<script a='") \o Times(S("</script>"), n) \o S("'>a</script>"), <<N(0, "raw", S("script"), {<<S("a"), Times(S("</script>"), n)>>}, S("a"))>>))
    [] Family = "void" ->
        (CASE part = "many" -> W(Times(S("<br>"), n), Each(LAMBDA i : N(0, "void", S("br"), {}, <<>>), n))
           [] part = "gap" -> W(S("<IMG") \o Run(SP, n) \o S(">t"), <<N(0, "void", S("IMG"), {}, <<>>), Text(0, S("t"))>>)
           [] part = "attr" -> W(S("<input a='") \o Run(x, n) \o S("'>t"), <<N(0, "void", S("input"), {<<S("a"), Run(x, n)>>}, <<>>), Text(0, S("t"))>>)
           [] part = "longer" -> W(S("<br") \o Run(114, n) \o S(">t</br") \o Run(114, n) \o S(">"), <<El(0, S("br") \o Run(114, n)), Text(1, S("t"))>>)
           [] part = "inside" -> W(S("<p>") \o Times(S("<hr/>"), n) \o S("</p>"), <<El(0, p)>> \o Each(LAMBDA i : N(1, "void", S("hr"), {}, <<>>), n))
           [] part = "between" -> W(S("<p>") \o Times(S("t<wbr>"), n) \o S("</p>"), <<El(0, p)>> \o Pair(LAMBDA i : Text(1, S("t")), LAMBDA i : N(1, "void", S("wbr"), {}, <<>>), n))
           [] part = "slashes" -> W(S("<p>") \o Times(S("<col><b></b>"), n) \o S("</p>"), <<El(0, p)>> \o Pair(LAMBDA i : N(1, "void", S("col"), {}, <<>>), LAMBDA i : El(1, b), n)))
    [] Family = "content" ->
        (CASE part = "comment" -> Leaf("comment", "<!--", Run(x, n), "-->")
           [] part = "dashes" -> Leaf("comment", "<!--", Times(S("- "), n), "-->")
           [] part = "doctype" -> Leaf("doctype", "<!doctype ", Run(x, n), ">")
           [] part = "comments" -> W(Times(S("<!--c-->"), n), Each(LAMBDA i : N(0, "comment", <<>>, {}, S("c")), n))
           [] part = "text" -> InP(Times(S("a\"'=/"), n), Times(S("a\"'=/"), n))
           [] part = "lines" -> InP(Times(S("a\n  "), n), Times(S("a\n  "), n))
           [] part = "doctypes" -> W(Times(S("<!DOCTYPE html>\n"), n), Pair(LAMBDA i : N(0, "doctype", <<>>, {}, S("html")), LAMBDA i : Text(0, S("\n")), n))
           [] part = "commentgt" -> Leaf("comment", "<!--", Times(S("<a>"), n), "-->"))

Init == part \in Parts /\ size \in Sizes
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Confirmed == size <= 33 => LET m == Made(size) IN Parse(m.src) = [ok |-> TRUE, doc |-> m.doc, free |-> FALSE]
Emit == LET m == Made(size) IN CSVWrite("%1$s", <<ToJson([op |-> "strict", src |-> m.src, want |-> [ok |-> TRUE, doc |-> m.doc, free |-> FALSE]])>>, OutFile)
\* damage at either end of it: never a document
Damage(t) == {t \o S("<"), t \o S("</q>"), t \o S("<q>"), t \o S("<!--"), S("</q>") \o t, S("<q>") \o t} \cup (IF Family = "content" THEN {} ELSE {S("<!--") \o t \o S("--")})
Bad == [ok |-> FALSE, doc |-> <<>>, free |-> FALSE]
DamageConfirmed == size <= 9 => \A t \in Damage(Made(size).src) : Parse(t) = Bad
EmitDamage == \A t \in Damage(Made(size).src) : CSVWrite("%1$s", <<ToJson([op |-> "strict", src |-> t, want |-> Bad])>>, OutFile)
===============================================================================

------------------------------ MODULE GenGrowth ------------------------------
(* Ways an input can grow: a piece repeated many times, between a beginning    *)
(* and an end, possibly closed again as often.  Every pattern is measured at   *)
(* two sizes a factor of eight apart.                                          *)
EXTENDS Chars, FiniteSets, Json, CSV

CONSTANTS Family, Size, OutFile

Pieces == {"<a>", "<a></a>", "<b>", "<p>", "<div>", "<a/>", "<br>", "x", " ", "&amp;", "&", "&#65;", "&a", "<!--x-->", "<!--", "-->", "-", "<a b='c'/>", " b='c'", " b", "='", "\"", "<script>", "</script>", "<script></script>",
           "<script/>", "</s", "</", "<", ">", "/", "<!doctype x>", "<![CDATA[x]]>", "<![CDATA[", "]", "<?p?>", "<a", "<a b=", "\n", "</a>", "</p>", "<table>", "<td>", "<select>", "<svg>", "<font color=a>", "<li>", "<style>", "\\"}
Opening == {"<a>", "<b>", "<p>", "<div>", "<script>", "<style>", "<table>", "<td>", "<select>", "<svg>", "<font color=a>", "<li>", "<!--", "<![CDATA["}
Frames == {<<"", "">>, <<"<a", "></a>">>, <<"<a>", "</a>">>, <<"<script>", "</script>">>, <<"<a b='", "'/>">>, <<"<!--", "-->">>, <<"<p><b><i>", "">>, <<"<table>", "</table>">>}
Closers(u) == CASE u = "<a>" -> {"", "</a>"} [] u = "<div>" -> {"", "</div>"} [] u = "<b>" -> {"", "</b>", "</p>"} [] u = "<script>" -> {"", "</script>"}
                [] u = "<!--" -> {"", "-->"} [] u = "<a b=" -> {"", "'"} [] u = "<![CDATA[" -> {"", "]]>"} [] u = "<table>" -> {"", "</table>"} [] OTHER -> {""}

VARIABLES ptn
vars == <<ptn>>
PatternOf(pre, unit, close, post, deep, total) == [pre |-> S(pre), unit |-> S(unit), mid |-> <<>>, close |-> S(close), post |-> S(post),
                                          sizes |-> LET n == IF deep THEN 2400 ELSE total \div Len(unit) IN <<n \div 8, n>>]
Pattern(pre, unit, close, post, deep) == PatternOf(pre, unit, close, post, deep, Size)
Init == ptn = <<>>
Single == \E u \in Pieces, f \in Frames : \E c \in Closers(u) : ptn' = Pattern(f[1], u, c, f[2], u \in Opening)
Pair == \E u \in Pieces, v \in Pieces : u # v /\ ptn' = Pattern("", u \o v, "", "", u \in Opening \/ v \in Opening)
\* what opens is closed again, around something that repeats inside
Balanced == \E f \in {<<"<a>", "</a>">>, <<"<DIV x=1>", "</div >">>, <<"<span><b>", "</b></span>">>, <<"<a><!--c-->t<br/>", "t</a>">>, <<"<x:y z='1'>", "</x:y>">>} :
              ptn' = Pattern("<r xmlns:x='u'>", f[1], f[2], "</r>", TRUE)
WithNumber(p, u) == [unit |-> S(u[1]), after |-> S(u[2])] @@ p
\* pieces some parser reads as nested
Nesting == {<<"<a", "/>">>, <<"<a x='", "'/>">>, <<"<a x", "='1'/>">>, <<"<br>", "">>, <<"t", "<b/>">>}
\* no two pieces alike: <<before the piece's number, after it>>
Numbered == \E f \in {<<"<r>", "</r>">>, <<"", "">>},
               u \in {<<"<a>", "</a>">>, <<"<a", "/>">>, <<"<a x='", "'/>">>, <<"<a x", "='1'/>">>, <<"<!--", "-->">>, <<"<br>", "">>, <<"t", "<b/>">>, <<"&#", ";">>, <<"&amp;", "">>, <<"<a>&lt;", "</a>">>, <<"<script>", "</script>">>} :
              ptn' = WithNumber(Pattern(f[1], u[1] \o "12345" \o u[2], "", f[2], u \in Nesting), u)
Attributes == \E u \in {<<" b", "='c'">>, <<" b", "">>, <<" b", "=c">>, <<" x:b", "='&lt;'">>} :
                ptn' = WithNumber(PatternOf("<a", u[1] \o "12345" \o u[2], "", "></a>", FALSE, Size \div 8), u)
Next == ptn = <<>> /\ CASE Family = "single" -> Single [] Family = "pair" -> Pair [] Family = "balanced" -> Balanced [] Family = "numbered" -> Numbered \/ Attributes
Spec == Init /\ [][Next]_vars
Ratio8 == ptn # <<>> => ptn.sizes[1] > 0 /\ ptn.sizes[2] \div ptn.sizes[1] \in 8..9
Emit == ptn # <<>> => \A p \in {"strict", "lenient", "xml"} :
          CSVWrite("%1$s", <<ToJson([op |-> "growth", parser |-> p] @@ ptn)>>, OutFile)
==============================================================================

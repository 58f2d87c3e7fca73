------------------------------ MODULE GenStrict ------------------------------
(* Exhaustive exploration of the strict HTML machine over chunk alphabets.   *)
(* The environment appends any chunk of the family; the machine consumes it  *)
(* character by character.  Every state is checked against the machine       *)
(* invariants, and for every state and every closing suffix of the family    *)
(* the input and its outcome are written as one behaviour to replay.         *)
EXTENDS StrictHtml, CSV, IOUtils

CONSTANTS Family, MaxLen, OutFile

Fam ==
  CASE Family = "tags" ->
         [pre |-> {""}, post |-> {""},
          chunks |-> {"<a>", "</a>", "<b>", "</B\n>", "<br>", "x", "<a/>", "<!--c-->"}]
    [] Family = "chars" ->
         [pre |-> {""}, post |-> {"", ">", "</a>"},
          chunks |-> {"<", "/", ">", "a", "!", "-", " "}]
    [] Family = "tokens" ->
         [pre |-> {"", "<p>"}, post |-> {"", "</p>"},
          chunks |-> {"<!--", "-->", "<!DOCtype ", ">", "<style>", "</style>", "<i b", "='", "'", "</i>", "t", "<hr"}]
    [] Family = "attrs" ->
         [pre |-> {"<a", "<br"}, post |-> {"></a>", ">", " />"},
          chunks |-> {" ", "\n", "b", "t=", "=", "'", "\"", "/", ">", "<"}]
    [] Family = "attrs2" ->
         [pre |-> {"<a ", "<Script ", "<img "}, post |-> {"></a>", "/>", "></script>", ">"},
          chunks |-> {"x", "y", "=", " = ", "\t", "'", "\"", "1/`", "nrtf", "\\"}]
    [] Family = "attrlist" ->
         [pre |-> {"<a", "<hr", "<style"}, post |-> {">", "/>", "></a>", "></style>"},
          chunks |-> {" x=1", " x='2'", "\n\ty", " z = \"a'b>\"", " w=no/t", "\rv=''", "u=\"&lt;\"", "\n=\n"}]
    [] Family = "refs" ->
         [pre |-> {""}, post |-> {""},
          chunks |-> {"&", "#", "x", "X", "4", "1", "amp", "lt;", ";", "frac1", "F", "q"}]
    [] Family = "refs2" ->
         [pre |-> {""}, post |-> {""},
          chunks |-> {"&amp;", "&amp", "&#38;", "&#x26;", "#65;", "#x41;", "lt;", "amp;", " "}]
    [] Family = "raw" ->
         [pre |-> {"<script>", "<Style a=1>"}, post |-> {"</sCript\n>z", "</style>"},
          chunks |-> {"</script>", "</STYLE >", "</", "scrip", "style", ">", "<", "x", " ", "<!--", "&lt;", "&#60;", "\""}]
    [] Family = "comment" ->
         [pre |-> {"<!--", "a<!--"}, post |-> {"-->", "", "->b"},
          chunks |-> {"-", ">", "<", "!", "x", " ", "&gt;", "&#62;"}]
    [] Family = "doctype" ->
         [pre |-> {"<!", "<!d", "<!DOCTYPE", "<!doctype "}, post |-> {">", "> ", "html>"},
          chunks |-> {"oc", "OC", "type", "typE", " ", "x", "&lt;", "&#x3c;", ">", "<", "-", "'"}]
    [] Family = "text" ->
         [pre |-> {"", "<p>", "<br>"}, post |-> {"", "</p>", "<!---->"},
          chunks |-> {"x", " ", "\n", "&gt;", ">", "<b>", "</b>", "<hr/>", "<!--y-->", "\""}]

VARIABLES src, m, n
vars == <<src, m, n>>

Init == \E p \in Fam.pre : src = S(p) /\ m = Feed(M0, S(p)) /\ n = 0

Append1(c) == /\ n < MaxLen
              /\ m.st # "err"
              /\ src' = src \o S(c)
              /\ m' = Feed(m, S(c))
              /\ n' = n + 1

Next == \E c \in Fam.chunks : Append1(c)
Spec == Init /\ [][Next]_vars

\* spec-level properties, evaluated in every state
Inv == MachineOK(m)

\* once rejected, no continuation is accepted (checked on the suffixes)
ErrAbsorbing == m.st = "err" => \A p \in Fam.post : ~Accepts(Feed(m, S(p)))

RefDoc(t) == t \o S("<a b=\"") \o t \o S("\">") \o t \o S("</a><!--") \o t \o S("--><!doctype ") \o t
             \o S("><style>") \o t \o S("</style>")

Emit ==
  \A p \in Fam.post :
    LET text == IF Family \in {"refs", "refs2"} THEN RefDoc(src) ELSE src \o S(p)
        r == IF Family \in {"refs", "refs2"} THEN Parse(text) ELSE Outcome(Feed(m, S(p)))
    IN CSVWrite("%1$s", <<ToJson([op |-> "strict", src |-> text, want |-> r])>>, OutFile)
=============================================================================

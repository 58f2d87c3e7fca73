-------------------------------- MODULE GenSound --------------------------------
(* Sound markup: trees grown by a content model - which elements may stand in      *)
(* which, where text may stand and where only white space - and written out tag by *)
(* tag.  The tree construction machine then repairs nothing: the body it builds is *)
(* the tree written, which is the tree the strict automaton reads.                 *)
EXTENDS HtmlTree, CSV, Json

CONSTANTS Family, MaxToks, MaxDepth, OutFile

Flow == {"div", "section", "article", "main", "header", "blockquote", "figure", "aside", "nav", "footer", "center", "address", "form", "fieldset", "details",
         "ul", "ol", "menu", "dl", "p", "h1", "h2", "h6", "pre", "listing", "table", "hr"}
Phrase == {"b", "i", "em", "strong", "code", "u", "s", "small", "big", "tt", "font", "strike", "a", "nobr", "span", "sub", "sup", "label", "button", "select", "br", "img", "input",
           "wbr", "embed", "cite", "abbr", "q", "var", "x-y", "object", "marquee", "ruby", "video", "canvas"}
Used == CASE Family = "lists" -> {"ul", "ol", "li", "dl", "dt", "dd", "p", "b"}
          [] Family = "tables" -> {"table", "caption", "colgroup", "col", "thead", "tbody", "tr", "td", "th", "b"}
          [] Family = "sections" -> {"div", "section", "main", "h1", "h2", "p", "blockquote", "pre", "hr", "figure"}
          [] Family = "phrases" -> {"p", "b", "i", "a", "nobr", "code", "span", "br", "img", "font"}
          [] Family = "forms" -> {"form", "fieldset", "label", "button", "select", "optgroup", "option", "input", "details"}
          [] Family = "objects" -> {"div", "object", "marquee", "ruby", "rt", "video", "source", "track", "embed", "canvas"}
Voids == {"hr", "br", "img", "input", "wbr", "embed", "col", "source", "track"}
Allowed(n) ==
  CASE n \in {"ul", "ol", "menu"} -> {"li"}
    [] n = "dl" -> {"dt", "dd"}
    [] n = "table" -> {"caption", "colgroup", "thead", "tbody", "tfoot"}
    [] n = "colgroup" -> {"col"}
    [] n \in {"thead", "tbody", "tfoot"} -> {"tr"}
    [] n = "tr" -> {"td", "th"}
    [] n = "select" -> {"option", "optgroup"}
    [] n = "optgroup" -> {"option"}
    [] n = "option" -> {}
    [] n = "ruby" -> {"rt", "b"}
    [] n \in {"video", "canvas"} -> Phrase \cup {"source", "track"}
    [] n \in {"p", "h1", "h2", "h6", "pre", "listing", "dt", "rt", "caption", "button", "label"} \cup (Phrase \ {"object", "marquee"}) -> Phrase
    [] OTHER -> Flow \cup Phrase
BlankOnly == {"table", "colgroup", "thead", "tbody", "tr"}
\* none of these stands in one of its own kind
Alone == {"a", "nobr", "button", "form", "select", "label", "p"}

VARIABLES toks, stack, machine, last
vars == <<toks, stack, machine, last>>

Init == toks = <<>> /\ stack = <<>> /\ machine = Empty /\ last = "none"
In == IF stack = <<>> THEN (Flow \cup Phrase) \ {"col"} ELSE Allowed(stack[Len(stack)])
Here == In \cap Used
Put(tk) == toks' = Append(toks, tk) /\ machine' = Token(machine, tk)
Attrs(n) == {{}, IF Len(toks) % 2 = 0 THEN {<<"class", " a  B ">>} ELSE {<<"id", "">>, <<"title", "x y">>}}
Room == Len(toks) + Len(stack) < MaxToks
Open == \E n \in Here \ Voids : \E a \in Attrs(n) :
          /\ Len(toks) + Len(stack) + 1 < MaxToks /\ Len(stack) < MaxDepth
          /\ ~(n \in Alone /\ \E i \in DOMAIN stack : stack[i] = n)
          /\ (a # {} => Len(toks) < 2)
          /\ Put(TokS("start", n, a, <<>>)) /\ stack' = Append(stack, n) /\ last' = n
Void == \E n \in Here \cap Voids : Room /\ Put(TokS("start", n, IF n = "input" THEN {<<"type", "text">>} ELSE {}, <<>>)) /\ last' = "void" /\ UNCHANGED stack
Close == stack # <<>> /\ Put(TokS("end", stack[Len(stack)], {}, <<>>)) /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ last' = "end"
Words == {S("x"), S(" y\t")}
Gaps == {S(" "), S("\n  ")}
Text == /\ Room /\ last # "text" /\ toks # <<>>
        /\ \E c \in (IF stack # <<>> /\ stack[Len(stack)] \in BlankOnly THEN Gaps ELSE Gaps \cup Words) :
             ~(last \in {"pre", "listing"} /\ c[1] = 10) /\ Put(TokS("text", "", {}, c))
        /\ last' = "text" /\ UNCHANGED stack
Remark == Room /\ toks # <<>> /\ last # "comment" /\ Put(TokS("comment", "", {}, S("c"))) /\ last' = "comment" /\ UNCHANGED stack
Next == Open \/ Void \/ Close \/ Text \/ Remark
Spec == Init /\ [][Next]_vars

Source == FlattenSeq([i \in DOMAIN toks |-> Written(toks[i])])
Done == toks # <<>> /\ stack = <<>>
BodyOf(f) == LET html == f.kids[1][CHOOSE i \in DOMAIN f.kids[1] : IsH(f, f.kids[1][i], {"html"})]
             IN f.kids[html][CHOOSE i \in DOMAIN f.kids[html] : IsH(f, f.kids[html][i], {"body"})]
\* what was written, read off the tags alone
Write(acc, tk) ==
  LET node(k) == [d |-> acc.d, k |-> k, n |-> Text1(tk.n), a |-> {<<S(p[1]), Text1(p[2])>> : p \in tk.a}, t |-> tk.c]
  IN CASE tk.t = "end" -> [acc EXCEPT !.d = @ - 1]
       [] tk.t = "start" /\ tk.n \in Voids -> [acc EXCEPT !.out = Append(@, node(IF tk.n \in VoidEls THEN "void" ELSE "el"))]
       [] tk.t = "start" -> [d |-> acc.d + 1, out |-> Append(acc.out, node("el"))]
       [] OTHER -> [acc EXCEPT !.out = Append(@, node(tk.t))]
Tree == FoldLeft(Write, [d |-> 0, out |-> <<>>], toks).out
H == INSTANCE StrictHtml
Agrees == Done =>
  LET f == Finish(machine)
      r == H!Parse(Source)
  IN ~f.odd /\ Flat(f, f.kids[BodyOf(f)], 0) = Tree /\ r.ok /\ r.doc = Tree

Emit == Done =>
  /\ CSVWrite("%1$s", <<ToJson([op |-> "lenient", src |-> Source, want |-> [ok |-> TRUE, free |-> FALSE, doc |-> Document(machine)]])>>, OutFile)
  /\ CSVWrite("%1$s", <<ToJson([op |-> "strict", src |-> Source, want |-> [ok |-> TRUE, free |-> FALSE, doc |-> Tree]])>>, OutFile)
=============================================================================

-------------------------------- MODULE GenTree --------------------------------
(* All token sequences up to a length over alphabets that stress one part of the  *)
(* tree construction each, with the document the machine builds.                  *)
EXTENDS HtmlTree, CSV, Json

CONSTANTS Family, MaxLen, OutFile

B(n) == TokS("start", n, {}, <<>>)
BA(n, a) == TokS("start", n, a, <<>>)
E(n) == TokS("end", n, {}, <<>>)
X(s) == TokS("text", "", {}, S(s))
C(s) == TokS("comment", "", {}, S(s))
R(n, s) == TokS("raw", n, {}, S(s))
SC(n) == [B(n) EXCEPT !.sc = TRUE]
D == TokS("doctype", "", {}, S("html"))

Tokens ==
  CASE Family = "document" -> {D, B("html"), B("head"), B("body"), E("html"), E("head"), E("body"), C("c"), X(" "), X("x"), R("title", "t"), B("meta"), B("div"),
                               BA("body", {<<"class", "b">>}), BA("html", {<<"lang", "en">>})}
    [] Family = "ordinary" -> {B("x-y"), B("span"), B("div"), E("x-y"), E("span"), E("div"), B("br"), X("t"), C("c")}
    [] Family = "blocks" -> {B("p"), B("div"), B("h1"), B("h2"), B("ul"), B("hr"), E("p"), E("div"), E("h1"), X("x"), B("pre"), X("\n")}
    [] Family = "lists" -> {B("ul"), B("li"), B("p"), B("dl"), B("dd"), B("dt"), E("ul"), E("li"), E("dd"), E("p"), X("x"), B("div"), B("address")}
    [] Family = "formatting" -> {B("b"), B("i"), B("a"), B("p"), B("div"), E("b"), E("i"), E("a"), E("p"), E("div"), X("x"), BA("a", {<<"href", "u">>})}
    [] Family = "formatting2" -> {B("b"), B("i"), B("nobr"), B("p"), E("b"), E("nobr"), B("object"), E("object"), X("x"), B("button"), E("button")}
    [] Family = "tables" -> {B("table"), B("tr"), B("td"), B("tbody"), B("caption"), B("col"), E("table"), E("tr"), E("td"), X("x"), X(" "), B("p"), B("b"), C("c")}
    [] Family = "tables2" -> {B("table"), B("td"), B("colgroup"), B("thead"), B("input"), BA("input", {<<"type", "hidden">>}), B("form"), R("style", "s"), E("table"),
                              E("tbody"), X("x"), B("select"), E("caption"), B("caption")}
    [] Family = "select" -> {B("select"), B("option"), B("optgroup"), E("select"), E("option"), E("optgroup"), B("hr"), B("input"), B("p"), X("x"), B("table"), B("td"), R("textarea", "x"), R("script", "s")}
    [] Family = "frames" -> {B("frameset"), B("frame"), E("frameset"), R("noframes", "n"), B("body"), E("html"), X(" "), X("x"), C("c"), B("p"), B("head")}
    [] Family = "raws" -> {R("title", "a"), R("script", "b"), R("style", " "), R("textarea", "\nc"), R("noscript", "x"), R("iframe", "y"), R("xmp", "z"), R("noembed", ""), B("p"), B("select"), X("x"), E("p"), B("body")}
    [] Family = "forms" -> {B("form"), E("form"), B("button"), E("button"), B("div"), E("div"), B("p"), X("x"), B("input"), B("table"), R("textarea", "\n\nx"), B("image")}
    [] Family = "ruby" -> {B("ruby"), B("rb"), B("rt"), B("rp"), B("rtc"), E("ruby"), X("x"), B("p"), E("rt")}
    [] Family = "foreign" -> {B("svg"), B("g"), SC("path"), B("foreignobject"), B("p"), E("svg"), E("g"), X("x"), B("math"), B("mi"), E("math"), C("c"), B("desc"), BA("font", {<<"color", "r">>}), E("p")}

VARIABLES toks, machine
vars == <<toks, machine>>
Init == toks = <<>> /\ machine = Empty
Step(tk) == Len(toks) < MaxLen /\ toks' = Append(toks, tk) /\ machine' = Token(machine, tk)
Next == \E tk \in Tokens : Step(tk)
Spec == Init /\ [][Next]_vars

Source == FlattenSeq([i \in DOMAIN toks |-> Written(toks[i])])

\* the parts every document has
Skeleton == LET f == Finish(machine)
                html == {i \in DOMAIN f.kids[1] : IsH(f, f.kids[1][i], {"html"})}
                h == f.kids[1][CHOOSE i \in html : TRUE]
                ks == f.kids[h]
                heads == {i \in DOMAIN ks : IsH(f, ks[i], {"head"})}
                bodies == {i \in DOMAIN ks : IsH(f, ks[i], {"body", "frameset"})}
            IN Cardinality(html) = 1 /\ Cardinality(heads) = 1 /\ Cardinality(bodies) = 1 /\ \A i \in heads, j \in bodies : i < j
\* every node hangs in the tree at most once, under its parent
Sound == \A i \in DOMAIN machine.nodes : \A p \in DOMAIN machine.kids :
           LET at == {j \in DOMAIN machine.kids[p] : machine.kids[p][j] = i} IN IF machine.par[i] = p THEN Cardinality(at) = 1 ELSE at = {}
NoNeighbours == \A p \in DOMAIN machine.kids : \A j \in 1..(Len(machine.kids[p]) - 1) :
                  ~(machine.nodes[machine.kids[p][j]].k = "text" /\ machine.nodes[machine.kids[p][j + 1]].k = "text")

\* ---- ordinary markup: elements, void elements, text and comments without rules of their own ----
Starts == {i \in DOMAIN toks : toks[i].t = "start" /\ toks[i].n \notin VoidEls}
Body(f) == LET html == f.kids[1][CHOOSE i \in DOMAIN f.kids[1] : IsH(f, f.kids[1][i], {"html"})]
           IN f.kids[html][CHOOSE i \in DOMAIN f.kids[html] : IsH(f, f.kids[html][i], {"body"})]
Inside == LET f == Finish(machine) IN Flat(f, f.kids[Body(f)], 0)
RECURSIVE Depths(_, _)   \* the open elements' names, or <<"!">> if a closing tag does not fit
Depths(i, st) == IF i > Len(toks) THEN st
                 ELSE IF toks[i].t = "start" /\ toks[i].n \notin VoidEls THEN Depths(i + 1, Append(st, toks[i].n))
                 ELSE IF toks[i].t = "end" THEN (IF st # <<>> /\ st[Len(st)] = toks[i].n THEN Depths(i + 1, SubSeq(st, 1, Len(st) - 1)) ELSE <<"!">>)
                 ELSE Depths(i + 1, st)
Balanced == Depths(1, <<>>) = <<>>

\* what the markup opens or says is in the document exactly once, in the order written
RECURSIVE Said(_)
Said(i) == IF i = 0 THEN <<>>
           ELSE LET before == Said(i - 1)
                    item == <<toks[i].t, toks[i].n, toks[i].c>>
                IN CASE toks[i].t \in {"start", "comment", "text"} -> Append(before, item) [] OTHER -> before
RECURSIVE TextsJoined(_)
TextsJoined(s) == IF s = <<>> THEN <<>> ELSE IF s[1][1] = "text" THEN s[1][3] \o TextsJoined(Tail(s)) ELSE TextsJoined(Tail(s))
AllNodes == Document(machine)
NothingLost == Family = "ordinary" =>
  LET said == Said(Len(toks))
      doc == SelectSeq(AllNodes, LAMBDA x : x.n \notin {S("html"), S("head"), S("body")})
      nontext == SelectSeq(said, LAMBDA x : x[1] # "text")
      got == SelectSeq(doc, LAMBDA x : x.k # "text")
      texts == FoldLeft(LAMBDA acc, x : IF x.k = "text" THEN acc \o x.t ELSE acc, <<>>, doc)
  IN /\ Len(nontext) = Len(got) /\ \A i \in DOMAIN got : got[i].n = Text1(nontext[i][2]) /\ got[i].t = nontext[i][3]
     /\ texts = TextsJoined(said)
\* on sound markup: the strict parser's tree, inside the body
H == INSTANCE StrictHtml
StrictAgrees == Family = "ordinary" /\ Balanced /\ toks # <<>> /\ toks[1].t # "comment" =>
  LET r == H!Parse(Source) IN r.ok /\ r.doc = Inside
\* a closing tag that closes nothing changes nothing
Stray == Family = "ordinary" => \A n \in {"x-y", "span", "div"} :
  (~\E i \in DOMAIN machine.open : IsH(machine, machine.open[i], {n})) /\ machine.mode = "inBody" => Token(machine, E(n)) = [machine EXCEPT !.lf = FALSE, !.ate = FALSE]

Emit == toks # <<>> => CSVWrite("%1$s", <<ToJson([op |-> "lenient", src |-> Source,
  want |-> [ok |-> TRUE, free |-> Finish(machine).odd, doc |-> Document(machine)]])>>, OutFile)
=============================================================================

------------------------------ MODULE GenRender ------------------------------
(* An author writes a document: every step adds a construct to the tree and,  *)
(* independently of the parsing machine, the characters that spell it out.    *)
(* The design theorem is that the machine reads back exactly what was         *)
(* written; every document written is also replayed into the implementation.  *)
EXTENDS StrictHtml, CSV

CONSTANTS Family, MaxSteps, MaxDepth, OutFile

VARIABLES src, tree, open, steps
vars == <<src, tree, open, steps>>

\* how one attribute may be spelt: [w |-> written, n |-> name, v |-> value]
At(w, n, v) == [w |-> S(w), n |-> S(n), v |-> S(v)]

Fam ==
  CASE Family = "shape" ->
      [els |-> {"a", "B-1"}, closers |-> {"", " "}, voids |-> {"hr"}, raws |-> {},
       attrs |-> {<<>>}, texts |-> {"t"}, comments |-> {"c"}, doctypes |-> {"html"}, selfs |-> {"p"}, gaps |-> {""}]
    [] Family = "page" ->
      [els |-> {"html"}, closers |-> {""}, voids |-> {"br"}, raws |-> {},
       attrs |-> {<<>>}, texts |-> {"\n", "  ", "t"}, comments |-> {" "}, doctypes |-> {"html"}, selfs |-> {}, gaps |-> {""}]
    [] Family = "attrs" ->
      [els |-> {"p"}, closers |-> {""}, voids |-> {"IMG"}, raws |-> {"style"},
       attrs |-> {<<>>,
                  <<At(" id=x1", "id", "x1")>>, <<At(" id='x1'", "id", "x1")>>, <<At("\n\tid = \"x1\"", "id", "x1")>>,
                  <<At(" t\r=\tx1", "t", "x1")>>, <<At(" x:y-z", "x:y-z", "")>>,
                  <<At(" a='\"=>/<'", "a", "\"=>/<"), At("b=\"'\n`\"", "b", "'\n`")>>,
                  <<At(" a=1", "a", "1"), At(" b", "b", ""), At(" c = '2'", "c", "2"), At("\rd=n/t", "d", "n/t"), At(" e", "e", "")>>},
       texts |-> {"u"}, comments |-> {}, doctypes |-> {}, selfs |-> {"q"}, gaps |-> {" ", " \n"}]
    [] Family = "raw" ->
      [els |-> {"p"}, closers |-> {""}, voids |-> {}, raws |-> {"script", "STYLE"},
       attrs |-> {<<>>, <<At(" a='</script>'", "a", "</script>")>>},
       texts |-> {"t"}, comments |-> {"<script>"}, doctypes |-> {}, selfs |-> {"b"}, gaps |-> {""}]
    [] Family = "content" ->
      [els |-> {"p"}, closers |-> {"\n"}, voids |-> {"br"}, raws |-> {},
       attrs |-> {<<>>}, texts |-> {" ", "\n x>y\t", "\"'=/"},
       comments |-> {"", "-", ">", "<a>&lt;</a>", " - -- ", "&#60;"},
       doctypes |-> {"", " html ", "html PUBLIC \"-//W3C\" 'x' & <b", "&amp;"}, selfs |-> {}, gaps |-> {""}]

RawContents == {<<"", "">>, <<" x ", "x">>, <<"</p><b>&lt;<!-- \"'", "</p><b>&lt;<!-- \"'">>,
                <<"\n</ script></scrip>\t", "</ script></scrip>">>, <<"a</", "a</">>, <<"</scripts>", "</scripts>">>,
                <<"&#60;&#x3C;&copy;", "&#60;&#x3C;&copy;">>}
RawClosers == {"script", "SCRIPT ", "sTYle\n", "style"}

Depth == Len(open)
Put(kind, n, a, t, w) ==
  /\ tree' = Append(tree, [d |-> Depth, k |-> kind, n |-> n, a |-> a, t |-> t])
  /\ src' = src \o w
  /\ steps' = steps + 1

AttrSet(as) == {<<as[j].n, as[j].v>> : j \in DOMAIN as}
AttrSrc(as) == FlattenSeq([j \in DOMAIN as |-> as[j].w])

\* a text may not directly follow a text of the same parent
LastIsText == tree # <<>> /\ tree[Len(tree)].k = "text" /\ src # <<>> /\ src[Len(src)] # GT

OpenElement == \E e \in Fam.els, as \in Fam.attrs, g \in Fam.gaps :
  /\ Depth < MaxDepth
  /\ Put("el", S(e), AttrSet(as), <<>>, S("<") \o S(e) \o AttrSrc(as) \o S(g) \o S(">"))
  /\ open' = Append(open, S(e))

FlipCase(t) == [j \in DOMAIN t |-> IF t[j] \in Upper THEN t[j] + 32 ELSE IF t[j] \in LowerCase THEN t[j] - 32 ELSE t[j]]
CloseTag(n, ws) == S("</") \o n \o S(ws) \o S(">")
CloseElement1 == \E ws \in Fam.closers, flip \in BOOLEAN :
  /\ open # <<>>
  /\ LET n == open[Len(open)] IN src' = src \o CloseTag(IF flip THEN FlipCase(n) ELSE n, ws)
  /\ open' = SubSeq(open, 1, Len(open) - 1)
  /\ tree' = tree /\ steps' = steps + 1

SelfClosed == \E e \in Fam.selfs, as \in Fam.attrs :
  Put("el", S(e), AttrSet(as), <<>>, S("<") \o S(e) \o AttrSrc(as) \o S(" />")) /\ open' = open

VoidElement == \E e \in Fam.voids, as \in Fam.attrs, slash \in {">", " />"} :
  Put("void", S(e), AttrSet(as), <<>>, S("<") \o S(e) \o AttrSrc(as) \o S(slash)) /\ open' = open

RawElement == \E e \in Fam.raws, as \in Fam.attrs, c \in RawContents, z \in RawClosers :
  LET bare == SelectSeq(S(z), LAMBDA x : x \in Letter)
  IN /\ Low(bare) = Low(S(e))
     /\ Put("raw", S(e), AttrSet(as), S(c[2]),
            S("<") \o S(e) \o AttrSrc(as) \o S(">") \o S(c[1]) \o S("</") \o S(z) \o S(">"))
     /\ open' = open
RawSelfClosed == \E e \in Fam.raws, as \in Fam.attrs :
  Put("raw", S(e), AttrSet(as), <<>>, S("<") \o S(e) \o AttrSrc(as) \o S(" />")) /\ open' = open

TextRun == \E t \in Fam.texts : ~LastIsText /\ Put("text", <<>>, {}, S(t), S(t)) /\ open' = open
Comment == \E c \in Fam.comments : Put("comment", <<>>, {}, S(c), S("<!--") \o S(c) \o S("-->")) /\ open' = open
Doctype == \E c \in Fam.doctypes, w \in {"doctype", "DocType"} :
  Put("doctype", <<>>, {}, S(c), S("<!") \o S(w) \o S(" ") \o S(c) \o S(">")) /\ open' = open

Init == src = <<>> /\ tree = <<>> /\ open = <<>> /\ steps = 0
Next == /\ steps < MaxSteps
        /\ \/ OpenElement \/ CloseElement1 \/ SelfClosed \/ VoidElement
           \/ RawElement \/ RawSelfClosed \/ TextRun \/ Comment \/ Doctype
Spec == Init /\ [][Next]_vars

\* finish the document by closing what is open
Closers == FlattenSeq([j \in 1..Len(open) |-> CloseTag(open[Len(open) + 1 - j], "")])
Finished == src \o Closers

ReadBack == Parse(Finished) = [ok |-> TRUE, doc |-> tree, free |-> FALSE]
\* with something left open, or closed once too often, nothing is accepted
Rejects == /\ open # <<>> => ~Parse(src).ok
           /\ ~Parse(Finished \o S("</a>")).ok
Emit == CSVWrite("%1$s", <<ToJson([op |-> "strict", src |-> Finished,
                                   want |-> [ok |-> TRUE, doc |-> tree, free |-> FALSE]])>>, OutFile)
=============================================================================

------------------------------ MODULE GenXmlDoc ------------------------------
(* An author writes an XML document: every step adds a construct to the tree  *)
(* and, independently of the parsing machine, the characters spelling it out. *)
EXTENDS Xml, CSV, Json

CONSTANTS Family, MaxSteps, MaxDepth, OutFile

VARIABLES src, tree, open, steps, done
vars == <<src, tree, open, steps, done>>

\* w written, n local name, v value; b binding it makes (<<>> or <<prefix, uri>>)
At(w, n, v) == [w |-> S(w), n |-> S(n), v |-> S(v), b |-> <<>>]
Ns(w, p, u) == [w |-> S(w), n |-> <<>>, v |-> <<>>, b |-> <<S(p), S(u)>>]

Fam ==
  CASE Family = "shape" ->
      [els |-> {<<"", "a">>, <<"", "B-1.x">>}, attrs |-> {<<>>}, texts |-> {<<"t", "t">>}, comments |-> {"c"}, cdatas |-> {}, pis |-> {},
       top |-> {" "}, closers |-> {"", "\n"}, empties |-> {"/>"}]
    [] Family = "attrs" ->
      [els |-> {<<"", "p">>, <<"", "_9">>},
       attrs |-> {<<>>, <<At(" id='1'", "id", "1")>>, <<At("\n\tid = \"1\" ", "id", "1")>>,
                  <<At(" a='\">/'", "a", "\">/"), At(" b=\"'&lt;&#65;&#x42;&amp;lt;\"", "b", "'<AB&lt;")>>,
                  <<At(" z=''", "z", ""), At(" y='1'", "y", "1"), At("\rx='2'", "x", "2"), At(" xml:lang='e'", "lang", "e")>>},
       texts |-> {<<"u", "u">>}, comments |-> {}, cdatas |-> {}, pis |-> {}, top |-> {}, closers |-> {""}, empties |-> {"/>", " />"}]
    [] Family = "ns" ->
      [els |-> {<<"", "a">>, <<"p", "a">>, <<"q", "b">>},
       attrs |-> {<<>>, <<Ns(" xmlns:p='u'", "p", "u")>>, <<Ns(" xmlns:p='v'", "p", "v"), Ns(" xmlns:q=\"w\"", "q", "w")>>,
                  <<Ns(" xmlns='d'", "", "d")>>, <<Ns(" xmlns=''", "", ""), At(" k='1'", "k", "1")>>},
       texts |-> {}, comments |-> {}, cdatas |-> {}, pis |-> {}, top |-> {}, closers |-> {""}, empties |-> {"/>"}]
    [] Family = "content" ->
      [els |-> {<<"", "a">>}, attrs |-> {<<>>},
       texts |-> {<<" t\n", " t\n">>, <<"]] > -- ?> /> = \"'", "]] > -- ?> /> = \"'">>, <<"&amp;lt;&#60;b/&gt;", "&lt;<b/>">>, <<" \n", "">>},
       comments |-> {"", " - ", "<a>&amp;</b>]]>"}, cdatas |-> {"", "x", "<b>&lt;", "]]", " ]>] ", "--"}, pis |-> {<<"p", "">>, <<"p", " x='?>">>, <<"q-1", "\td ?">>, <<"xmlx", " <a>&lt;">>},
       top |-> {" \n"}, closers |-> {""}, empties |-> {"/>"}]

Depth1 == Len(open)
Scope == IF open = <<>> THEN {} ELSE open[Depth1].ns
N0(kind, n, t) == [d |-> Depth1, k |-> kind, n |-> n, a |-> {}, t |-> t, p |-> <<>>, ns |-> <<>>, nm |-> {}]
Add(node, w) == tree' = Append(tree, node) /\ src' = src \o w /\ steps' = steps + 1

Named(e) == IF e[1] = "" THEN S(e[2]) ELSE S(e[1]) \o S(":") \o S(e[2])
InScope(as) == LET mine == {as[j].b : j \in {i \in DOMAIN as : as[i].b # <<>>}}
               IN {x \in {y \in Scope : \A z \in mine : z[1] # y[1]} \cup mine : x # <<<<>>, <<>>>>}
Elem(e, as) ==
  LET sc == InScope(as) p == S(e[1]) u == {x \in sc : x[1] = p}
  IN [d |-> Depth1, k |-> "el", n |-> S(e[2]), a |-> {<<as[j].n, as[j].v>> : j \in {i \in DOMAIN as : as[i].b = <<>>}}, t |-> <<>>,
      p |-> IF e[1] = "" THEN <<>> ELSE <<p>>, ns |-> IF u = {} THEN <<>> ELSE <<(CHOOSE x \in u : TRUE)[2]>>, nm |-> sc]
Usable(e, as) == e[1] = "" \/ \E x \in InScope(as) : x[1] = S(e[1])
Src(as) == FlattenSeq([j \in DOMAIN as |-> as[j].w])
CanOpen == (Depth1 > 0 \/ ~done) /\ Depth1 < MaxDepth

LastIsText == tree # <<>> /\ src # <<>> /\ src[Len(src)] # GT

OpenElement == \E e \in Fam.els, as \in Fam.attrs :
  /\ CanOpen /\ Usable(e, as)
  /\ Add(Elem(e, as), S("<") \o Named(e) \o Src(as) \o S(">"))
  /\ open' = Append(open, [w |-> Named(e), ns |-> InScope(as)]) /\ done' = TRUE
EmptyElement == \E e \in Fam.els, as \in Fam.attrs, z \in Fam.empties :
  /\ CanOpen /\ Usable(e, as)
  /\ Add(Elem(e, as), S("<") \o Named(e) \o Src(as) \o S(z)) /\ open' = open /\ done' = TRUE
CloseTag(n, ws) == S("</") \o n \o S(ws) \o S(">")
CloseElement == \E ws \in Fam.closers :
  /\ open # <<>> /\ src' = src \o CloseTag(open[Depth1].w, ws)
  /\ open' = SubSeq(open, 1, Depth1 - 1) /\ tree' = tree /\ steps' = steps + 1 /\ done' = done
Same == open' = open /\ done' = done
Text1 == \E t \in Fam.texts :
  /\ Depth1 > 0 /\ ~LastIsText
  /\ IF t[2] = "" THEN tree' = tree /\ src' = src \o S(t[1]) /\ steps' = steps + 1
     ELSE Add(N0("text", <<>>, S(t[2])), S(t[1]))
  /\ Same
Space == \E t \in Fam.top : Depth1 = 0 /\ ~LastIsText /\ tree' = tree /\ src' = src \o S(t) /\ steps' = steps + 1 /\ Same
Comment1 == \E c \in Fam.comments : Add(N0("comment", <<>>, S(c)), S("<!--") \o S(c) \o S("-->")) /\ Same
Cdata1 == \E c \in Fam.cdatas : Depth1 > 0 /\ Add(N0("cdata", <<>>, S(c)), S("<![CDATA[") \o S(c) \o S("]]>")) /\ Same
Pi1 == \E x \in Fam.pis :
  LET w == S("<?") \o S(x[1]) \o S(x[2]) \o S("?>") IN
  /\ x[2] # " x='?>"        \* that one would end early
  /\ Add([N0("pi", S(x[1]), <<>>) EXCEPT !.ns = IF x[2] = "" THEN <<>> ELSE <<Tail(S(x[2]))>>], w) /\ Same

Init == src \in {<<>>, S("<?xml version='1.0'?>"), S("<?xml version=\"1.0\" encoding='UTF-8' ?>\n")} /\ tree = <<>> /\ open = <<>> /\ steps = 0 /\ done = FALSE
Next == steps < MaxSteps /\ (OpenElement \/ EmptyElement \/ CloseElement \/ Text1 \/ Space \/ Comment1 \/ Cdata1 \/ Pi1)
Spec == Init /\ [][Next]_vars

Finished == src \o FlattenSeq([j \in 1..Depth1 |-> CloseTag(open[Depth1 + 1 - j].w, "")])
Want == [verdict |-> "ok", free |-> FALSE, doc |-> tree]
ReadBack == done => Parse(Finished) = Want
Rejects == /\ open # <<>> => Parse(src).verdict = "bad"
           /\ ~done => Parse(src).verdict = "bad"
           /\ done => /\ Parse(Finished \o S("</a>")).verdict = "bad"
                      /\ Parse(Finished \o S("<a/>")).verdict = "bad"
Emit == done => CSVWrite("%1$s", <<ToJson([op |-> "xml", src |-> Finished, want |-> Want])>>, OutFile)
=============================================================================

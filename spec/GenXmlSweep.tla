----------------------------- MODULE GenXmlSweep -----------------------------
(* Every character of a set in every lexical context of an XML document, and  *)
(* every code point as a reference.                                           *)
EXTENDS Xml, CSV, Json

CONSTANTS Family, OutFile, From, To, Stride

CharSet == (0..300) \cup {5760, 6158, 8195, 8205, 8207, 8239, 8288, 12287, 65529, 697, 767, 768, 880, 894, 895, 1632, 8191, 8192, 8203, 8204, 8206, 8232, 8233, 8255, 8304, 8592, 11264, 12272, 12288, 12289, 55295, 57344,
                          63744, 64976, 65007, 65008, 65279, 65533, 65534, 65535, 65536, 128512, 983039, 983040, 1114111}
Contexts ==
  {<<"", "">>, <<"", "<r/>">>, <<"<r/>", "">>, <<"<r>", "</r>">>, <<"<r>x", "y</r>">>, <<"<", "/>">>, <<"<r", "/>">>, <<"<r", "a='1'/>">>, <<"<r ", "='1'/>">>, <<"<r a", "='1'/>">>,
   <<"<r a=", "'1'/>">>, <<"<r a", "'1'/>">>, <<"<r a='", "'/>">>, <<"<r a=\"", "\"/>">>, <<"<r a='1'", "/>">>, <<"<r a='1'", "b='2'/>">>, <<"<r/", ">">>, <<"<r></", "r>">>, <<"<r></r", ">">>,
   <<"<r></r ", ">">>, <<"<r><!--", "--></r>">>, <<"<r><!-- -", "-></r>">>, <<"<r><!-- --", "></r>">>, <<"<r><!-", "- --></r>">>, <<"<r><!", "-- --></r>">>, <<"<r><![CDATA[", "]]></r>">>,
   <<"<r><![CDATA[]", "]></r>">>, <<"<r><![CDATA[]]", "></r>">>, <<"<r><![CDATA", "[]]></r>">>, <<"<r>]]", "</r>">>, <<"<r><?", "?></r>">>, <<"<r><?p", "?></r>">>, <<"<r><?p ", "?></r>">>,
   <<"<r><?p ?", "></r>">>, <<"<?xml", "version='1.0'?><r/>">>, <<"<?xml version='1.0'", "?><r/>">>, <<"<?xml version=", "1.0'?><r/>">>, <<"<r>&", ";</r>">>, <<"<r>&l", ";</r>">>, <<"<r>&lt", "</r>">>,
   <<"<r>&#", ";</r>">>, <<"<r>&#6", ";</r>">>, <<"<r>&#x", ";</r>">>, <<"<r a='&", "amp;'/>">>, <<"<", ":a xmlns:p='u'/>">>, <<"<r xmlns:", "='u'/>">>, <<"<!DOCTYPE ", "><r/>">>, <<"<!DOCTYPE", "r><r/>">>}

RECURSIVE Digits(_, _)
Digits(v, base) == LET d == v % base c == IF d < 10 THEN 48 + d ELSE 87 + d
                   IN IF v < base THEN <<c>> ELSE Append(Digits(v \div base, base), c)
Block == 64
Codes(b) == [j \in 1..Block |-> b * Block + j - 1]
Dec(c) == S("&#") \o Digits(c, 10) \o S(";")
Hex(c) == S("&#x") \o Digits(c, 16) \o S(";")

\* every code point as itself: content that holds a block, and names built with it
Points(b) == SelectSeq(Codes(b), LAMBDA c : c < 55296 \/ c > 57343)
PointDocs(b) ==
  LET cs == SelectSeq(Points(b), LAMBDA c : IsXmlChar(c))
      half == Len(cs) \div 2
      lo == SubSeq(cs, 1, half) hi == SubSeq(cs, half + 1, Len(cs))
      start == SelectSeq(cs, LAMBDA c : IsNameStart(c) /\ c # 58)
      within == SelectSeq(cs, LAMBDA c : IsNameChar(c) /\ c # 58)
  IN {S("<r>") \o cs \o S("<c/>") \o hi \o S("</r>"), S("<r a=\"") \o lo \o S("\" b='") \o hi \o S("'/>"),
      S("<r><!--") \o lo \o S("--><c/><!--") \o hi \o S("--></r>"), S("<r><![CDATA[") \o cs \o S("]]><?p ") \o lo \o S("?></r>"),
      S("<r>") \o FlattenSeq([j \in DOMAIN start |-> S("<") \o <<start[j]>> \o S("/>")]) \o S("</r>"),
      S("<r>") \o FlattenSeq([j \in DOMAIN within |-> S("<a") \o <<within[j]>> \o S("/>")]) \o S("</r>"),
      S("<r") \o FlattenSeq([j \in DOMAIN start |-> S(" ") \o <<start[j]>> \o S("='1' a") \o <<start[j]>> \o S("='2'")]) \o S("/>")}
\* what may not stand there: in each block, at the edges of what may
Misplaced(b) ==
  LET cs == Points(b)
      edge(j) == j \in {1, Len(cs)} \/ IsNameStart(cs[j]) # IsNameStart(cs[j - 1]) \/ IsNameChar(cs[j]) # IsNameChar(cs[j - 1]) \/ IsXmlChar(cs[j]) # IsXmlChar(cs[j - 1])
      picked == {cs[j] : j \in {i \in DOMAIN cs : edge(i) \/ (i < Len(cs) /\ edge(i + 1))}}
  IN {S("<r>") \o <<c>> \o S("</r>") : c \in picked} \cup {S("<") \o <<c>> \o S("/>") : c \in picked} \cup {S("<r a") \o <<c>> \o S("='1'/>") : c \in picked}

VARIABLES item
vars == <<item>>
Items == IF Family = "chars" THEN CharSet ELSE {b \in From..To : (b - From) % Stride = 0}
Init == item \in {<<"todo", x>> : x \in Items}
Next == item[1] = "todo" /\ item' = <<"done", item[2]>>
Spec == Init /\ [][Next]_vars

Write(src) == CSVWrite("%1$s", <<ToJson([op |-> "xml", src |-> src, want |-> Parse(src)])>>, OutFile)
Root(t) == S("<r>.") \o t \o S("</r>")
Emit == item[1] = "done" =>
  IF Family = "points" THEN Points(item[2]) = <<>> \/ \A z \in PointDocs(item[2]) \cup Misplaced(item[2]) : Write(z)
  ELSE IF Family = "chars" THEN \A z \in Contexts : Write(S(z[1]) \o <<item[2]>> \o S(z[2]))
  ELSE LET cs == Codes(item[2]) good == SelectSeq(cs, LAMBDA c : IsXmlChar(c)) bad == SelectSeq(cs, LAMBDA c : ~IsXmlChar(c))
       IN /\ Write(Root(FlattenSeq([j \in DOMAIN good |-> Dec(good[j])])))
          /\ Write(Root(FlattenSeq([j \in DOMAIN good |-> Hex(good[j])])))
          /\ \A j \in DOMAIN bad : (j <= 4) => Write(Root(Dec(bad[j]))) /\ Write(Root(Hex(bad[j])))
References == (item[1] = "done" /\ Family = "codes") =>
  LET cs == SelectSeq(Codes(item[2]), LAMBDA c : IsXmlChar(c))
      want(f(_)) == Parse(Root(FlattenSeq([j \in DOMAIN cs |-> f(cs[j])])))
  IN cs # <<>> => want(Dec).verdict = "ok" /\ want(Dec).doc[2].t = NoCR(S(".") \o cs) /\ want(Hex) = want(Dec)
=============================================================================

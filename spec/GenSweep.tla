------------------------------- MODULE GenSweep -------------------------------
(* Sweeps over whole alphabets that breadth-first families cannot hold:       *)
(*   chars     every character of a set in every lexical context              *)
(*   refchars rawchars textchars   the same in contexts of one property each     *)
(*   closers   closing tags that fit, and that nearly do                        *)
(*   names     every void/raw name, its letter cases and its look-alikes      *)
(*   entities  every named reference of the standard in every position        *)
(*   codes     every code point, written in decimal and hexadecimal           *)
(*   points    every code point as itself, wherever content may stand         *)
EXTENDS StrictHtml, CSV

CONSTANTS Family, OutFile, From, To, Stride   \* From..To, Stride: for codes

VARIABLES item
vars == <<item>>

Write(src, want) == CSVWrite("%1$s", <<ToJson([op |-> "strict", src |-> src, want |-> want])>>, OutFile)
WriteParsed(src) == Write(src, Parse(src))

\* ---- chars --------------------------------------------------------------------
CharSet == (0..300) \cup {383, 304, 305, 847, 1564, 4447, 5760, 6158, 8192, 8195, 8201, 8202, 8203, 8204, 8205, 8206, 8207, 8239, 8288, 65529, 8232, 8233, 8287, 8490, 12288, 55295, 57344,
                          64257, 65279, 65533, 65534, 65535, 65536, 128512, 1114111}
CharContexts ==
  {<<"", "">>, <<"<", ">">>, <<"<", "a></a>">>, <<"<a", "></a>">>, <<"<a", "b></ab>">>, <<"<a ", "></a>">>, <<"<a b", "></a>">>,
   <<"<a b", "=x></a>">>, <<"<a b=", "></a>">>, <<"<a b=", "x></a>">>, <<"<a b=x", "></a>">>, <<"<a b=x", "y></a>">>,
   <<"<a b='", "'></a>">>, <<"<a b=\"", "\"></a>">>, <<"<a b='x'", "></a>">>, <<"<a b='x'", "c></a>">>, <<"<a b ", "= c></a>">>,
   <<"<a/", ">">>, <<"<a", "/>">>, <<"<br", ">">>, <<"<br", "/>x">>, <<"<a></", "a>">>, <<"<a></a", ">">>, <<"<a></a ", ">">>,
   <<"<!", "-- -->">>, <<"<!-", "- -->">>, <<"<!--", "-->">>, <<"<!-- -", "->">>, <<"<!-- --", ">">>, <<"<!doctype", "x>">>, <<"<!doctype ", ">">>, <<"<!doctyp", " x>">>,
   <<"<script", "></script>">>, <<"<script>", "</script>">>, <<"<script>a<", "/script></script>">>, <<"<script>a</scrip", "></script>">>,
   <<"<script>a</script", "></script>">>, <<"<script>a</script ", "></script>">>, <<"<", "cript>x</script>">>,
   <<"&", ";">>, <<"&am", ";">>, <<"&amp", "">>, <<"&amp", " ">>, <<"&#", ";">>, <<"&#6", ";">>, <<"&#x", ";">>, <<"&#x4", "1;">>, <<"<a b='&amp", "'/>">>}

\* beside these, what belongs to a single property
RefContexts == {<<"&", ";">>, <<"&", "amp;">>, <<"&am", "p;">>, <<"&am", ";">>, <<"&amp", "">>, <<"&amp", " ">>, <<"&amp", "x">>, <<"&amp;", ";">>, <<"&#", ";">>, <<"&#", "65;">>, <<"&#6", "5;">>, <<"&#65", ";">>, <<"&#65", "">>,
                <<"&#x", ";">>, <<"&#x", "41;">>, <<"&#x4", "1;">>, <<"&#x41", ";">>, <<"&#X41", "">>, <<"&&", ";">>, <<"", "amp;">>, <<"", "#65;">>, <<"&frac1", ";">>, <<"&frac", "2;">>, <<"&there4", "">>, <<"&lt", "gt;">>, <<"&copy", "y;">>,
                <<"<a b='&amp", "'/>">>, <<"<a b='&", "amp;'/>">>, <<"<a b='&#", "65;'/>">>, <<"<a b='&#x41", ";'/>">>, <<"<a b=\"&am", "p;\"/>">>, <<"<a b=&amp", " />">>, <<"<a b=&#", "65; />">>}
RawContexts == {<<"<script>", "</script>">>, <<"<script>", "x</script>">>, <<"<script>x", "</script>">>, <<"<script>x", "y</script>">>, <<"<script> ", " </script>">>, <<"<script>x ", "</script>">>, <<"<script>", " x</script>">>,
                <<"<style>", "x</style>">>, <<"<style>x", "</style>">>, <<"<textarea>x", "</textarea>">>, <<"<title>", "x</title>">>, <<"<script a='", "'>x</script>">>, <<"<script a=x", ">y</script>">>,
                <<"<script>x<", "/script></script>">>, <<"<script>x</", "script></script>">>, <<"<script>x</scr", "ipt></script>">>, <<"<script>x</script", "></script>">>, <<"<script>x</script ", "></script>">>,
                <<"<script>", "\n</script>">>, <<"<script>\n", "</script>">>, <<"<script>&", ";</script>">>, <<"<script><!--", "--></script>">>, <<"<script/", ">x</script>">>, <<"<script>x</script>", "">>, <<"", "<script>x</script>">>}
TextContexts == {<<"", "">>, <<"", "x">>, <<"x", "">>, <<"x", "y">>, <<"<a/>", "">>, <<"", "<a/>">>, <<"<p>", "</p>">>, <<"<p>x", "</p>">>, <<"<p>", "x</p>">>, <<"<p>x", "y</p>">>, <<"x\r", "">>, <<"", "\n">>, <<"\n", "x">>, <<" ", " ">>,
                 <<"<!--", "-->">>, <<"<!--x", "-->">>, <<"<!--", "x-->">>, <<"<!--x", "y-->">>, <<"<!-- ", " -->">>, <<"<!---", "-->">>, <<"<!--", "--->">>, <<"<!doctype ", ">">>, <<"<!doctype ", "x>">>, <<"<!doctype x", ">">>, <<"<!doctype x", "y>">>,
                 <<"<!doctype x ", ">">>, <<"<!DOCTYPE html", "'a'>">>, <<"<a/>", "<b/>">>, <<"<!--x-->", "<!--y-->">>, <<"<br>", "<br>">>, <<"<p></p>", "<p></p>">>, <<"]]", ">">>, <<"x", "<!--y-->">>, <<"x", "<script></script>">>}

\* ---- names --------------------------------------------------------------------
Bases == VoidNames \cup RawNames
FlipCase(t) == [j \in DOMAIN t |-> IF t[j] \in Upper THEN t[j] + 32 ELSE IF t[j] \in LowerCase THEN t[j] - 32 ELSE t[j]]
Cases(t) == {t, FlipCase(t), [t EXCEPT ![1] = FlipCase(<<@>>)[1]], [t EXCEPT ![Len(t)] = FlipCase(<<@>>)[1]],
             [j \in DOMAIN t |-> IF j % 2 = 1 THEN FlipCase(<<t[j]>>)[1] ELSE t[j]]}
Tails == {S("a"), S("s"), S("Z"), S("0"), S("-"), S("_"), S("."), S(":"), S("-x"), S("group"), S("font"), <<233>>, <<383>>, <<8490>>}
LookAlikes(t) ==
  {t \o x : x \in Tails} \cup {SubSeq(t, 1, j) : j \in 1..(Len(t) - 1)} \cup {SubSeq(t, j, Len(t)) : j \in 2..Len(t)}
  \cup {S("x") \o t, S("1") \o t, t \o t, S("x-") \o t, S("x:") \o t} \cup {t \o u : u \in Bases}
  \cup {[t EXCEPT ![j] = c] : j \in DOMAIN t, c \in {48, 107, 115, 122, 45}}
Names == UNION {Cases(t) \cup LookAlikes(t) : t \in Bases} \cup {S("a"), S("H1"), S("0"), S("a-b"), S("a.b:c_d")}
NameDocs(t) ==
  LET o == S("<") \o t \o S(">")
      x == S("</") \o t \o S(">")
  IN {o, o \o x, o \o S("t") \o x, S("<p>") \o o \o S("</p>"), S("<p>") \o o \o S("t</p>t"), S("t") \o o \o S("t") \o x \o S("t"),
      S("<") \o t \o S("/>t"), S("<") \o t \o S(" a=1>t"), S("<") \o t \o S(" a />t"), o \o S("</") \o FlipCase(t) \o S(" >t"), o \o o,
      o \o S("<b></b>") \o x, S("<x-") \o t \o S(">") \o S("</x-") \o t \o S(">"), x}

\* ---- closers: tags that close, or nearly -------------------------------------------
Punct == {0, 9, 10, 12, 32, 33, 34, 39, 45, 46, 47, 48, 57, 58, 61, 62, 65, 90, 95, 97, 122, 160, 183, 223, 233, 383, 8490, 12288}
\* what single characters of other alphabets turn into when letters are folded or decomposed
Folds == {<<"ss", 223>>, <<"ss", 7838>>, <<"s", 383>>, <<"k", 8490>>, <<"i", 304>>, <<"i", 305>>, <<"fi", 64257>>, <<"fl", 64258>>, <<"ff", 64256>>, <<"ffi", 64259>>, <<"ffl", 64260>>, <<"st", 64261>>, <<"st", 64262>>,
          <<"ij", 307>>, <<"dz", 499>>, <<"lj", 457>>, <<"nj", 460>>, <<"a", 65345>>, <<"a", 170>>, <<"o", 186>>, <<"1", 185>>, <<"2", 178>>, <<"a", 1072>>, <<"o", 959>>, <<"c", 1089>>, <<"-", 8208>>, <<"-", 8722>>, <<":", 65306>>, <<".", 8228>>}
Folded(t) == UNION {LET u == S(f[1]) IN {SubSeq(t, 1, i) \o <<f[2]>> \o SubSeq(t, i + Len(u) + 1, Len(t)) : i \in {i \in 0..(Len(t) - Len(u)) : Low(SubSeq(t, i + 1, i + Len(u))) = u}} : f \in Folds}
Closed == {S("a"), S("p"), S("ss"), S("SS"), S("class"), S("script"), S("style"), S("s"), S("k"), S("fi"), S("shuffle"), S("ffi"), S("st"), S("ij"), S("dz"), S("lj"), S("nj"), S("i"), S("h1"), S("h2"), S("o-o"), S("x:k"), S("x.s"), S("title"), S("textarea"), S("K")}
CloserDocs(t) ==
  LET with(u) == S("<") \o t \o S(">x</") \o u \o S(">")
  IN {with(u) : u \in Folded(t) \cup Cases(t)} \cup {S("<") \o u \o S(">x</") \o t \o S(">") : u \in Folded(t)}
     \cup {with(t \o <<c>>) : c \in Punct} \cup {with(<<c>> \o t) : c \in Punct} \cup {with(t \o <<c, d>>) : c \in Punct, d \in Punct}
     \cup {with(SubSeq(t, 1, i) \o <<c>> \o SubSeq(t, i + 1, Len(t))) : i \in 1..(Len(t) - 1), c \in Punct}
     \cup {with(t) \o <<c>> : c \in Punct} \cup {S("<p>") \o with(t \o <<c>>) \o S("</p>") : c \in Punct}

\* ---- entities -----------------------------------------------------------------
TextNode(t) == [d |-> 0, k |-> "text", n |-> <<>>, a |-> {}, t |-> t]
Yes(doc) == [ok |-> TRUE, doc |-> doc, free |-> FALSE]
El(n, a) == [d |-> 0, k |-> "el", n |-> n, a |-> a, t |-> <<>>]
\* what is written is known here without decoding: the reference stands for v, whatever surrounds it stays
EntityDocs(w, v) ==
  {<<w, Yes(<<TextNode(v)>>)>>,
   <<S("x ") \o w \o S(" y"), Yes(<<TextNode(S("x ") \o v \o S(" y"))>>)>>,
   <<w \o w, Yes(<<TextNode(v \o v)>>)>>,
   <<S("&") \o w, Yes(<<TextNode(S("&") \o v)>>)>>,
   <<w \o S("\n&lt;"), Yes(<<TextNode(v \o S("\n<"))>>)>>,
   <<S("&#38;") \o SubSeq(w, 2, Len(w)), Yes(<<TextNode(w)>>)>>,
   <<S("&amp;") \o SubSeq(w, 2, Len(w)), Yes(<<TextNode(w)>>)>>,
   <<S("<a b=\"") \o w \o S("\"/>"), Yes(<<El(S("a"), {<<S("b"), v>>})>>)>>,
   <<S("<a b='.") \o w \o S(".'/>"), Yes(<<El(S("a"), {<<S("b"), S(".") \o v \o S(".")>>})>>)>>,
   <<S("<a b=") \o w \o S(" />"), Yes(<<El(S("a"), {<<S("b"), v>>})>>)>>,
   <<S("<!--") \o w \o S("--><!doctype ") \o w \o S("><script b='") \o w \o S("'>") \o w \o S("</script>"),
     Yes(<<[TextNode(w) EXCEPT !.k = "comment"], [TextNode(w) EXCEPT !.k = "doctype"],
           [d |-> 0, k |-> "raw", n |-> S("script"), a |-> {<<S("b"), v>>}, t |-> w]>>)>>}
NearMisses(t) ==
  LET body == IF t[Len(t)] = SEMI THEN SubSeq(t, 1, Len(t) - 1) ELSE t
  IN {[body EXCEPT ![1] = FlipCase(<<@>>)[1]] \o S(";"), body \o S("q;"), SubSeq(body, 1, Len(body) - 1) \o S(";"), body \o S(" ;"), body \o S("x")}
     \cup {SubSeq(body, 1, j) \o S(" ") \o SubSeq(body, j + 1, Len(body)) \o S(";") : j \in {1, Len(body) - 1} \ {0}}

\* ---- codes --------------------------------------------------------------------
RECURSIVE Digits(_, _)
Digits(v, base) == LET d == v % base
                       c == IF d < 10 THEN 48 + d ELSE 87 + d
                   IN IF v < base THEN <<c>> ELSE Append(Digits(v \div base, base), c)
Block == 128      \* keeps a behaviour below 8 KB: longer lines are not written atomically
Codes(b) == SelectSeq([j \in 1..Block |-> b * Block + j - 1], LAMBDA c : IsScalar(c) /\ c \notin OpenControl)
Dec(c) == S("&#") \o Digits(c, 10) \o S(";")
Hex(c) == S("&#x") \o Digits(c, 16) \o S(";")
HEX(c) == S("&#X00") \o [j \in DOMAIN Digits(c, 16) |-> FlipCase(<<Digits(c, 16)[j]>>)[1]] \o S(";")

\* ---- points -------------------------------------------------------------------
Points(b) == SelectSeq([j \in 1..Block |-> b * Block + j - 1], LAMBDA c : IsScalar(c))
PointDocs(b) ==
  LET cs == Points(b)
      half == Len(cs) \div 2
      lo == SubSeq(cs, 1, half) hi == SubSeq(cs, half + 1, Len(cs))
  IN {S("<p>") \o cs \o S("</p>") \o lo \o S("<br>") \o hi, S("<p a=\"") \o lo \o S("\" b='") \o hi \o S("' c=") \o hi \o S(" d>") \o lo \o S("</p>"),
      S("<!--") \o lo \o S("--><!doctype ") \o hi \o S(">"), S("<script>") \o cs \o S("</script><style a=") \o lo \o S(">") \o hi \o S("</style>"),
      FlattenSeq([j \in DOMAIN lo |-> <<lo[j]>> \o S("<br>")])}

\* ---- one behaviour per item -----------------------------------------------------
Items ==
  CASE Family \in {"chars", "refchars", "rawchars", "textchars"} -> CharSet
    [] Family = "closers" -> Closed
    [] Family = "names" -> Names
    [] Family = "entities" -> NamedSet
    [] Family \in {"codes", "points"} -> {b \in From..To : (b - From) % Stride = 0}

Init == item \in {<<"todo", x>> : x \in Items}
Next == item[1] = "todo" /\ item' = <<"done", item[2]>>
Spec == Init /\ [][Next]_vars

Emit == item[1] = "done" =>
  LET x == item[2] IN
  CASE Family = "chars" -> \A z \in CharContexts : WriteParsed(S(z[1]) \o <<x>> \o S(z[2]))
    [] Family = "refchars" -> \A z \in RefContexts : WriteParsed(S(z[1]) \o <<x>> \o S(z[2]))
    [] Family = "rawchars" -> \A z \in RawContexts : WriteParsed(S(z[1]) \o <<x>> \o S(z[2]))
    [] Family = "textchars" -> \A z \in TextContexts : WriteParsed(S(z[1]) \o <<x>> \o S(z[2]))
    [] Family = "closers" -> \A z \in CloserDocs(x) : WriteParsed(z)
    [] Family = "names" -> \A z \in NameDocs(x) : WriteParsed(z)
    [] Family = "entities" ->
         LET t == S(x) v == Named[x]
         IN /\ \A z \in EntityDocs(<<AMP>> \o t, v) : Write(z[1], z[2])
            /\ \A z \in NearMisses(t) : WriteParsed(<<AMP>> \o z)
    [] Family = "points" -> Points(x) = <<>> \/ \A z \in PointDocs(x) : WriteParsed(z)
    [] Family = "codes" ->
         LET cs == Codes(x)
         IN IF cs = <<>> THEN TRUE
            ELSE /\ Write(FlattenSeq([j \in DOMAIN cs |-> Dec(cs[j])]), Yes(<<TextNode(cs)>>))
                 /\ Write(S("<a b=\"") \o FlattenSeq([j \in DOMAIN cs |-> Hex(cs[j])]) \o S("\"/>"), Yes(<<El(S("a"), {<<S("b"), cs>>})>>))
                 /\ Write(FlattenSeq([j \in DOMAIN cs |-> HEX(cs[j])]), Yes(<<TextNode(cs)>>))

\* the direct statement of what references denote agrees with the decoding scanner
DecodeAgrees ==
  /\ Family = "entities" => \A z \in EntityDocs(<<AMP>> \o S(item[2]), Named[item[2]]) :
        LET r == Parse(z[1]) IN r.free \/ r = z[2]
  /\ Family = "codes" => \A j \in DOMAIN Codes(item[2]) :
        (j % 50 = 0) => LET c == Codes(item[2])[j] IN Decode(Dec(c)) = <<c>> /\ Decode(Hex(c)) = <<c>> /\ Decode(HEX(c)) = <<c>>
=============================================================================

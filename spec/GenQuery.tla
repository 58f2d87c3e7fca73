------------------------------- MODULE GenQuery -------------------------------
(* All documents of a family up to MaxNodes nodes; for each, the answers to a *)
(* suite of queries, both as the iterator machine delivers them and as the    *)
(* declarative answer.  The suite is written to SuiteFile, the answers to     *)
(* OutFile, one line per document.                                            *)
EXTENDS Query, CSV, Json, TLC

CONSTANTS Family, MaxNodes, OutFile, SuiteFile

N(k, n, a) == [d |-> 0, k |-> k, n |-> S(n), a |-> {<<S(x[1]), S(x[2])>> : x \in a}, t |-> IF k \in {"text", "comment", "raw", "doctype", "cdata", "rich"} THEN S("t") ELSE <<>>]

\* ---- labels of nodes per family --------------------------------------------------
Labels ==
  CASE Family = "shape" -> {N("el", "a", {}), N("el", "b", {<<"x", "1">>}), N("text", "", {})}
    [] Family = "conj" -> {N("el", "a", {}), N("el", "a", {<<"x", "1">>}), N("el", "b", {<<"x", "1">>, <<"y", "2">>}),
                           N("el", "b", {<<"x", "2">>, <<"y", "1">>}), N("void", "a", {<<"y", "1">>})}
    [] Family = "many" -> {N("el", "ab", a) : a \in {{}, {<<"x", "12">>, <<"y", "21">>}, {<<"class", "12">>, <<"x", "1">>}}} \cup {N("void", "a", {<<"class", "12">>, <<"x", "12">>}), N("text", "", {})}
    [] Family = "mode" -> {N("el", "a", {}), N("el", "b", {<<"x", "1">>}), N("comment", "", {})}
    [] Family = "kinds" -> {N("el", "a", {<<"x", "a">>}), N("void", "a", {<<"x", "b">>}), N("raw", "a", {<<"class", "a">>}),
                            N("text", "", {}), N("comment", "", {}), N("doctype", "", {}), N("cdata", "", {}), N("pi", "", {}),
                            N("tagonly", "a", {}), N("bag", "", {<<"x", "a">>}), N("rich", "a", {<<"class", "a">>})}
    [] Family = "attrs" -> {N("el", "a", a) : a \in
            {{}, {<<"x", "x">>}, {<<"x", "y">>}, {<<"y", "x">>}, {<<"x", "">>}, {<<"", "x">>}, {<<"X", "x">>}, {<<"x", "X">>}, {<<"x", "x y">>},
             {<<"x", "1">>, <<"y", "2">>}, {<<"x", "2">>, <<"y", "1">>}, {<<"x", "1">>, <<"xy", "2">>, <<"z", "x">>},
             {<<"class", "x">>}, {<<"class", "x y">>}, {<<"class", "">>}, {<<"Class", "x">>}, {<<"class", "y">>, <<"x", "x">>},
             {<<"class", " x">>}, {<<"x", " x">>}, {<<"id", "class">>}}}
         \cup {N("void", "x", {<<"x", "xy">>}), N("el", "X", {}), N("el", "xy", {}), N("el", "yx", {}), N("el", "yxy", {}), N("text", "", {})}
    [] Family = "types" -> {N("el", n, {<<m, v>>}) : n \in {"x", "X", "xy", " x"}, m \in {"x", "yx", "class", "x "}, v \in {"x", "", "x ", "yxy", "y\nx", "x\ny\nyx", "X\r\nx"}}

\* ---- suites -------------------------------------------------------------------------
St(s) == P("str", S(s))
Txt(s) == {P(t, S(s)) : t \in {"str", "string", "cow", "user"}} \cup {Re("is", S(s))}
AllPats(s) == Txt(s) \cup {P("ci", S(s)), Re("pre", S(s)), Re("suf", S(s)), Re("sub", S(s)), Re("low", S(s)), Re("line", S(s)), Re("two", S(s))}
ModeSeqs == {<<>>, <<Strict>>, <<Recursive>>, <<Strict, Recursive>>, <<Recursive, Strict>>, <<Strict, Strict>>,
             <<Strict, Recursive, Strict>>, <<Recursive, Strict, Recursive>>}
\* interleave mode changes with filters in every way
RECURSIVE Shuffles(_, _)
Shuffles(s, t) == IF s = <<>> THEN {t} ELSE IF t = <<>> THEN {s}
                  ELSE {<<Head(s)>> \o z : z \in Shuffles(Tail(s), t)} \cup {<<Head(t)>> \o z : z \in Shuffles(s, Tail(t))}

Suite == SetToSeq(
  CASE Family = "shape" -> {<<>>, <<Tag(St("a"))>>, <<Tag(St("b"))>>, <<Tag(Yes)>>, <<AttrName(St("x"))>>, <<Strict, Tag(St("b"))>>,
                            <<Strict>>, <<Tag(St("z"))>>, <<Tag(No)>>, <<Tag(Re("sub", S("b"))), Attr(St("x"), St("1"))>>}
    [] Family = "conj" ->
         LET one == {Tag(St("a")), Tag(St("b")), Tag(Yes), Attr(St("x"), St("1")), AttrName(St("y")), AttrValue(St("1")), Attr(Yes, St("2")),
                     Attr(Re("is", S("x")), Re("is", S("1"))), Tag(No)}
         IN {<<f, g>> : f \in one, g \in one} \cup {<<f>> : f \in one}
            \cup {<<f, g, h>> : f \in {Tag(St("b")), AttrName(St("x"))}, g \in one, h \in {AttrName(St("y")), AttrValue(St("1")), Tag(Yes)}}
    [] Family = "many" ->   \* four to eight filters, of one kind or of the kinds in turn, with changes of mode between them
         LET tags == <<Tag(Yes), Tag(Re("pre", S("a"))), Tag(Re("sub", S("b"))), Tag(P("ci", S("AB"))), Tag(St("ab")), Tag(Yes), Tag(P("cow", S("ab"))), Tag(Re("suf", S("b")))>>
             tags2 == <<Tag(Yes), Tag(Re("pre", S("a"))), Tag(Yes), Tag(Re("sub", S("a"))), Tag(P("user", S("ab"))), Tag(Yes), Tag(Yes), Tag(No)>>
             attrs == <<Attr(Yes, Yes), Attr(St("x"), Yes), Attr(Yes, Re("sub", S("1"))), Attr(St("x"), Re("pre", S("1"))), Attr(St("y"), St("21")), Attr(Yes, St("12")), Attr(St("x"), St("12")), Attr(No, Yes)>>
             names == <<AttrName(Yes), AttrName(St("x")), AttrName(Re("sub", S("x"))), AttrName(P("ci", S("X"))), AttrName(St("class")), AttrName(Yes), AttrName(St("x")), AttrName(St("z"))>>
             values == <<AttrValue(Yes), AttrValue(Re("sub", S("1"))), AttrValue(Re("pre", S("1"))), AttrValue(St("12")), AttrValue(St("21")), AttrValue(Yes), AttrValue(Yes), AttrValue(St(""))>>
             classes == <<Class(Yes), Class(Re("sub", S("1"))), Class(Re("suf", S("2"))), Class(St("12")), Class(P("string", S("12"))), Class(Yes), Class(Re("low", S("12"))), Class(No)>>
             turns == <<Tag(Yes), Attr(Yes, Re("sub", S("1"))), AttrName(St("x")), AttrValue(St("12")), Class(Yes), Tag(St("ab")), Attr(St("x"), Yes), AttrName(St("z"))>>
             put(s, j, m) == SubSeq(s, 1, j) \o m \o SubSeq(s, j + 1, Len(s))
         IN {put(SubSeq(s, 1, n), j, m) : s \in {tags, tags2, attrs, names, values, classes, turns}, n \in 4..8, j \in {0, 2, 4}, m \in {<<>>, <<Strict>>, <<Strict, Recursive>>}}
    [] Family = "mode" -> UNION {Shuffles(ms, fs) : ms \in ModeSeqs,
                                 fs \in {<<>>, <<Tag(St("b"))>>, <<Tag(Yes), AttrName(St("x"))>>}}
    [] Family = "kinds" -> {<<>>, <<Strict>>} \cup {<<f>> : f \in {Tag(Yes), Tag(No), Tag(St("a")), Tag(St("")), Tag(Re("sub", <<>>)), AttrName(Yes), AttrValue(Yes),
                            Attr(Yes, Yes), Attr(Yes, No), Attr(No, Yes), Attr(St("x"), Yes), Attr(St("x"), St("a")), Class(Yes), Class(St("a")), AttrValue(St("a")),
                            AttrName(St("")), AttrValue(St("t")), Tag(St("t"))}}
    [] Family = "attrs" ->
         LET names == {St("x"), St("class"), St(""), Yes, No, P("ci", S("x")), Re("pre", S("x")), Re("sub", S("y"))}
             values == {St("x"), St(""), St("1"), Yes, No, P("ci", S("x")), Re("pre", S("x")), Re("suf", S("y")), St("x y")}
         IN {<<Attr(n, v)>> : n \in names, v \in values} \cup {<<AttrName(n)>> : n \in names} \cup {<<AttrValue(v)>> : v \in values}
            \cup {<<Class(v)>> : v \in values} \cup {<<Tag(n)>> : n \in names}
    [] Family = "types" ->
         LET near == {" x", "x ", " x ", "\tx", "x\n", "X", "xx", "x\\", "'x'", "*", ".", "^x$", "yX"}
             ps == UNION {AllPats(s) : s \in {"x", "", "yx"}} \cup UNION {Txt(s) : s \in near} \cup {Yes, No}
         IN {<<Tag(p)>> : p \in ps} \cup {<<Class(p)>> : p \in ps} \cup {<<AttrName(p)>> : p \in ps} \cup {<<AttrValue(p)>> : p \in ps}
            \cup {<<Attr(n, v)>> : n \in AllPats("x") \cup {Yes, No}, v \in AllPats("x") \cup {Yes, No}})

ASSUME CSVWrite("%1$s", <<ToJson(Suite)>>, SuiteFile)

\* ---- documents: an author appends nodes -----------------------------------------------
VARIABLES doc
vars == <<doc>>

Init == doc = <<>>
AddNode(lab, dep) ==
  /\ Len(doc) < MaxNodes
  /\ IF doc = <<>> THEN dep = 0
     ELSE dep <= doc[Len(doc)].d + (IF doc[Len(doc)].k \in ParentKinds THEN 1 ELSE 0)
  /\ doc' = Append(doc, [lab EXCEPT !.d = dep])
Next == \E lab \in Labels, dep \in 0..(MaxNodes - 1) : AddNode(lab, dep)
Spec == Init /\ [][Next]_vars

Queries == [j \in DOMAIN Suite |-> Build(Suite[j])]
RunSuite == [j \in DOMAIN Suite |-> QDrain(doc, QStart(Roots(doc), Queries[j]))]
FirstOf(s) == IF s = <<>> THEN 0 ELSE s[1]

\* ---- what is proved of the machines -----------------------------------------------------
DocOK == WellFormedDoc(doc)
\* every answer of the machine is the declarative answer: complete, without repetition, in order
Exact == \A j \in DOMAIN Suite : RunSuite[j] = Answer(doc, Roots(doc), Queries[j])
Ordered == \A j \in DOMAIN Suite : LET r == RunSuite[j] IN \A x \in 1..(Len(r) - 1) : r[x] < r[x + 1]
\* chaining is conjunction and does not depend on the order of the filters
Conj == \A j \in DOMAIN Suite : Len(Queries[j].fs) = 2 =>
          LET f == Queries[j].fs IN
          ToSet(RunSuite[j]) = ToSet(QDrain(doc, QStart(Roots(doc), [Queries[j] EXCEPT !.fs = <<f[1]>>])))
                               \cap ToSet(QDrain(doc, QStart(Roots(doc), [Queries[j] EXCEPT !.fs = <<f[2]>>])))
\* the last mode wins and only the roots are seen in strict mode
Modes == \A j \in DOMAIN Suite :
           LET ms == SelectSeq(Suite[j], IsMode)
           IN /\ Queries[j].rec = (ms = <<>> \/ ms[Len(ms)].o = "recursive")
              /\ ~Queries[j].rec => ToSet(RunSuite[j]) \subseteq ToSet(Roots(doc))

Emit ==
  LET r == RunSuite
  IN CSVWrite("%1$s", <<ToJson([op |-> "query", doc |-> doc, want |-> [all |-> r, first |-> [j \in DOMAIN r |-> FirstOf(r[j])]]])>>, OutFile)
=============================================================================

-------------------------------- MODULE HtmlTree --------------------------------
(* The HTML tree construction machine (WHATWG, "tree construction"), without      *)
(* templates: a stack of open elements, a list of active formatting elements and  *)
(* an insertion mode; one step per token.  Element names are TLA+ strings here.   *)
(*   token: [t, n, a, c]  t in start end char comment doctype eof                 *)
(*   a raw text element (title, script, ...) is one token t = "raw" with content  *)
EXTENDS Chars, FiniteSets

Blanks == {9, 10, 12, 13, 32}
TokS(t, n, a, c) == [t |-> t, n |-> n, a |-> a, c |-> c, sc |-> FALSE]
Start0(n) == TokS("start", n, {}, <<>>)

\* node 1 is the document
Empty == [nodes |-> <<[k |-> "doc", ns |-> "h", n |-> "", a |-> {}, t |-> <<>>]>>, kids |-> <<<<>>>>, par |-> <<0>>,
          open |-> <<>>, fmt |-> <<>>, head |-> 0, form |-> 0, mode |-> "initial", orig |-> "initial", fsok |-> TRUE,
          quirks |-> FALSE, pend |-> <<>>, fo |-> FALSE, lf |-> FALSE, ate |-> FALSE, odd |-> FALSE]

Cur(st) == st.open[Len(st.open)]
IsH(st, id, names) == st.nodes[id].k = "el" /\ st.nodes[id].ns = "h" /\ st.nodes[id].n \in names
CurIs(st, names) == st.open # <<>> /\ IsH(st, Cur(st), names)

Headings == {"h1", "h2", "h3", "h4", "h5", "h6"}
ImpliedEnd == {"dd", "dt", "li", "option", "optgroup", "p", "rb", "rp", "rt", "rtc"}
Special == {"address", "applet", "area", "article", "aside", "base", "basefont", "bgsound", "blockquote", "body", "br", "button", "caption",
  "center", "col", "colgroup", "dd", "details", "dir", "div", "dl", "dt", "embed", "fieldset", "figcaption", "figure", "footer", "form",
  "frame", "frameset", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "hr", "html", "iframe", "img", "input", "li", "link",
  "listing", "main", "marquee", "menu", "meta", "nav", "noembed", "noframes", "noscript", "object", "ol", "p", "param", "plaintext", "pre",
  "script", "section", "select", "source", "style", "summary", "table", "tbody", "td", "template", "textarea", "tfoot", "th", "thead",
  "title", "tr", "track", "ul", "wbr", "xmp"}
RawNames == {"title", "style", "script", "noframes", "noscript", "textarea", "xmp", "iframe", "noembed"}
MathText == {"mi", "mo", "mn", "ms", "mtext"}
SvgHtml == {"foreignObject", "desc", "title"}
IsMathText(st, id) == st.nodes[id].ns = "m" /\ st.nodes[id].n \in MathText
IsSvgHtml(st, id) == st.nodes[id].ns = "s" /\ st.nodes[id].n \in SvgHtml

DefaultScope == {"applet", "caption", "html", "table", "td", "th", "marquee", "object", "template"}
ScopeStop(st, id, scope) ==
  CASE scope = "table" -> IsH(st, id, {"html", "table", "template"})
    [] scope = "select" -> ~IsH(st, id, {"optgroup", "option"})
    [] OTHER -> \/ IsH(st, id, DefaultScope) \/ IsMathText(st, id) \/ IsSvgHtml(st, id)
                \/ (scope = "list" /\ IsH(st, id, {"ol", "ul"})) \/ (scope = "button" /\ IsH(st, id, {"button"}))
RECURSIVE ScopeFrom(_, _, _, _)
ScopeFrom(st, i, scope, ids) == IF i = 0 THEN FALSE
                                ELSE IF st.open[i] \in ids THEN TRUE
                                ELSE IF ScopeStop(st, st.open[i], scope) THEN FALSE ELSE ScopeFrom(st, i - 1, scope, ids)
OpenNamed(st, names) == {st.open[i] : i \in {j \in DOMAIN st.open : IsH(st, st.open[j], names)}}
InScope(st, scope, names) == ScopeFrom(st, Len(st.open), scope, OpenNamed(st, names))

\* ---- the tree -------------------------------------------------------------------------------
Without(s, id) == SelectSeq(s, LAMBDA x : x # id)
Before(s, id, new) == LET i == CHOOSE j \in DOMAIN s : s[j] = id IN SubSeq(s, 1, i - 1) \o <<new>> \o SubSeq(s, i, Len(s))
Detach(st, id) == IF st.par[id] = 0 THEN st ELSE [st EXCEPT !.kids[st.par[id]] = Without(@, id), !.par[id] = 0]
Attach(st, id, pl) == LET s == Detach(st, id)
                      IN [s EXCEPT !.kids[pl.p] = IF pl.b = 0 THEN Append(@, id) ELSE Before(@, pl.b, id), !.par[id] = pl.p]
NewNode(st, nd) == [st EXCEPT !.nodes = Append(@, nd), !.kids = Append(@, <<>>), !.par = Append(@, 0)]
El(ns, n, a) == [k |-> "el", ns |-> ns, n |-> n, a |-> a, t |-> <<>>]
End(p) == [p |-> p, b |-> 0]

\* the appropriate place for inserting a node
Place(st, override) ==
  LET target == IF override # 0 THEN override ELSE Cur(st)
      tables == {i \in DOMAIN st.open : IsH(st, st.open[i], {"table"})}
      ti == CHOOSE i \in tables : \A j \in tables : j <= i
  IN IF ~(st.fo /\ IsH(st, target, {"table", "tbody", "tfoot", "thead", "tr"})) THEN End(target)
     ELSE IF tables = {} THEN End(st.open[1])
     ELSE IF st.par[st.open[ti]] # 0 THEN [p |-> st.par[st.open[ti]], b |-> st.open[ti]]
     ELSE End(st.open[ti - 1])

Insert(st, nd, pl) == LET s == NewNode(st, nd) IN Attach(s, Len(s.nodes), pl)
PutChar(st, c, pl) ==
  LET ks == st.kids[pl.p]
      i == IF pl.b = 0 THEN Len(ks) + 1 ELSE CHOOSE j \in DOMAIN ks : ks[j] = pl.b
  IN IF i > 1 /\ st.nodes[ks[i - 1]].k = "text" THEN [st EXCEPT !.nodes[ks[i - 1]].t = Append(@, c)]
     ELSE Insert(st, [k |-> "text", ns |-> "h", n |-> "", a |-> {}, t |-> <<c>>], pl)
AddChar(st, c) == PutChar(st, c, Place(st, 0))
CommentNode(c) == [k |-> "comment", ns |-> "h", n |-> "", a |-> {}, t |-> c]
AddComment(st, tok, pl) == Insert(st, CommentNode(tok.c), pl)

Push(st, id) == [st EXCEPT !.open = Append(@, id)]
Pop(st) == [st EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)]
InsertEl(st, n, a) == LET s == Insert(st, El("h", n, a), Place(st, 0)) IN Push(s, Len(s.nodes))
InsertFor(st, tok) == InsertEl(st, tok.n, tok.a)
InsertVoid(st, tok) == Pop(InsertFor(st, tok))
Phantom(st, n) == InsertEl(st, n, {})
RemoveOpen(st, id) == [st EXCEPT !.open = Without(@, id)]
Missing(st, id, a) == [st EXCEPT !.nodes[id].a = @ \cup {p \in a : ~\E q \in @ : q[1] = p[1]}]
To(st, mode) == [st EXCEPT !.mode = mode]
NoFrames(st) == [st EXCEPT !.fsok = FALSE]

RECURSIVE ImplyExcept(_, _)
ImplyExcept(st, names) == IF CurIs(st, ImpliedEnd \ names) THEN ImplyExcept(Pop(st), names) ELSE st
Imply(st) == ImplyExcept(st, {})
RECURSIVE PopUntil(_, _)   \* including one of that name
PopUntil(st, names) == IF st.open = <<>> THEN st ELSE IF CurIs(st, names) THEN Pop(st) ELSE PopUntil(Pop(st), names)
RECURSIVE PopTo(_, _)      \* until the current node has one of these names
PopTo(st, names) == IF CurIs(st, names) THEN st ELSE PopTo(Pop(st), names)
CloseP(st) == IF InScope(st, "button", {"p"}) THEN PopUntil(ImplyExcept(st, {"p"}), {"p"}) ELSE st

\* ---- active formatting elements: 0 is a marker ----------------------------------------------------
SinceMarker(st) == LET ms == {i \in DOMAIN st.fmt : st.fmt[i] = 0} IN {i \in DOMAIN st.fmt : \A m \in ms : i > m}
InOpen(st, id) == \E i \in DOMAIN st.open : st.open[i] = id
DropFmt(st, id) == [st EXCEPT !.fmt = Without(@, id)]
RECURSIVE ClearFmt(_)
ClearFmt(st) == IF st.fmt = <<>> THEN st ELSE LET last == st.fmt[Len(st.fmt)]
                                                  s == [st EXCEPT !.fmt = SubSeq(@, 1, Len(@) - 1)]
                                              IN IF last = 0 THEN s ELSE ClearFmt(s)
Marker(st) == [st EXCEPT !.fmt = Append(@, 0)]
RemoveAt1(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertFmt(st, tok) ==
  LET same == {i \in SinceMarker(st) : st.nodes[st.fmt[i]].n = tok.n /\ st.nodes[st.fmt[i]].a = tok.a}
      s == IF Cardinality(same) >= 3 THEN [st EXCEPT !.fmt = RemoveAt1(@, CHOOSE i \in same : \A j \in same : i <= j)] ELSE st
      e == InsertFor(s, tok)
  IN [e EXCEPT !.fmt = Append(@, Cur(e))]
Live(st, i) == st.fmt[i] = 0 \/ InOpen(st, st.fmt[i])
RECURSIVE Recreate(_, _)
Recreate(st, i) == IF i > Len(st.fmt) THEN st
                   ELSE LET e == InsertEl(st, st.nodes[st.fmt[i]].n, st.nodes[st.fmt[i]].a)
                        IN Recreate([e EXCEPT !.fmt[i] = Cur(e)], i + 1)
Reconstruct(st) == IF st.fmt = <<>> \/ Live(st, Len(st.fmt)) THEN st
                   ELSE LET live == {i \in DOMAIN st.fmt : Live(st, i)}
                            from == IF live = {} THEN 1 ELSE 1 + CHOOSE i \in live : \A j \in live : j <= i
                        IN Recreate(st, from)

IndexIn(s, id) == CHOOSE i \in DOMAIN s : s[i] = id
\* an end tag with no rule of its own
RECURSIVE AnyEndFrom(_, _, _)
AnyEndFrom(st, i, n) == IF i = 0 THEN st
                        ELSE IF IsH(st, st.open[i], {n})
                             THEN LET s == ImplyExcept(st, {n}) IN [s EXCEPT !.open = SubSeq(@, 1, i - 1)]
                        ELSE IF IsH(st, st.open[i], Special) THEN st ELSE AnyEndFrom(st, i - 1, n)
AnyEnd(st, n) == AnyEndFrom(st, Len(st.open), n)

\* the adoption agency: [st, last, mark] walks from the furthest block up to the formatting element
RECURSIVE Inner(_, _, _, _, _, _, _)
Inner(st, i, fe, fb, last, mark, count) ==
  LET id == st.open[i]
      cnt == count + 1
      infmt == \E j \in DOMAIN st.fmt : st.fmt[j] = id
  IN IF id = fe THEN [st |-> st, last |-> last, mark |-> mark]
     ELSE IF cnt > 3 \/ ~infmt THEN Inner(RemoveOpen(DropFmt(st, id), id), i - 1, fe, fb, last, mark, cnt)
     ELSE LET s1 == NewNode(st, El("h", st.nodes[id].n, st.nodes[id].a))
              new == Len(s1.nodes)
              s2 == [s1 EXCEPT !.open[i] = new, !.fmt = [j \in DOMAIN @ |-> IF @[j] = id THEN new ELSE @[j]]]
              s3 == Attach(s2, last, End(new))
          IN Inner(s3, i - 1, fe, fb, new, IF last = fb THEN new ELSE mark, cnt)

RECURSIVE Reparent(_, _, _)
Reparent(st, from, to) == IF st.kids[from] = <<>> THEN st ELSE Reparent(Attach(st, st.kids[from][1], End(to)), from, to)

RECURSIVE Adopt(_, _, _)
Adopt(st, n, round) ==
  LET named == {i \in SinceMarker(st) : st.nodes[st.fmt[i]].n = n}
      fi == CHOOSE i \in named : \A j \in named : j <= i
      fe == st.fmt[fi]
      si == IndexIn(st.open, fe)
      blocks == {i \in (si + 1)..Len(st.open) : IsH(st, st.open[i], Special)}
      bi == CHOOSE i \in blocks : \A j \in blocks : i <= j
      fb == st.open[bi]
  IN IF round > 8 THEN st
     ELSE IF named = {} THEN AnyEnd(st, n)
     ELSE IF ~InOpen(st, fe) THEN DropFmt(st, fe)
     ELSE IF ~ScopeFrom(st, Len(st.open), "default", {fe}) THEN st
     ELSE IF blocks = {} THEN DropFmt([st EXCEPT !.open = SubSeq(@, 1, si - 1)], fe)
     ELSE LET w == Inner(st, bi - 1, fe, fb, fb, 0, 0)
              s1 == Attach(Detach(w.st, w.last), w.last, Place(Detach(w.st, w.last), st.open[si - 1]))
              s2 == NewNode(s1, El("h", st.nodes[fe].n, st.nodes[fe].a))
              new == Len(s2.nodes)
              s3 == Attach(Reparent(s2, fb, new), new, End(fb))
              s4 == IF w.mark = 0 THEN [s3 EXCEPT !.fmt = [j \in DOMAIN @ |-> IF @[j] = fe THEN new ELSE @[j]]]
                    ELSE LET i == IndexIn(s3.fmt, w.mark)
                         IN DropFmt([s3 EXCEPT !.fmt = SubSeq(@, 1, i) \o <<new>> \o SubSeq(@, i + 1, Len(@))], fe)
              s5 == RemoveOpen(s4, fe)
              j == IndexIn(s5.open, fb)
          IN Adopt([s5 EXCEPT !.open = SubSeq(@, 1, j) \o <<new>> \o SubSeq(@, j + 1, Len(@))], n, round + 1)
Agency(st, n) == IF CurIs(st, {n}) /\ ~\E j \in DOMAIN st.fmt : st.fmt[j] = Cur(st) THEN Pop(st) ELSE Adopt(st, n, 1)

\* ---- resetting the insertion mode --------------------------------------------------------------------
RECURSIVE ResetFrom(_, _)
ResetFrom(st, i) ==
  IF i = 0 THEN "inBody"
  ELSE LET id == st.open[i]
           nm == st.nodes[id].n
       IN IF st.nodes[id].ns # "h" THEN ResetFrom(st, i - 1)
          ELSE CASE nm = "select" -> IF \E j \in 1..(i - 1) : IsH(st, st.open[j], {"table"}) THEN "inSelectInTable" ELSE "inSelect"
                 [] nm \in {"td", "th"} -> "inCell"
                 [] nm = "tr" -> "inRow"
                 [] nm \in {"tbody", "thead", "tfoot"} -> "inTableBody"
                 [] nm = "caption" -> "inCaption"
                 [] nm = "colgroup" -> "inColumnGroup"
                 [] nm = "table" -> "inTable"
                 [] nm = "head" -> "inHead"
                 [] nm = "body" -> "inBody"
                 [] nm = "frameset" -> "inFrameset"
                 [] nm = "html" -> IF st.head = 0 THEN "beforeHead" ELSE "afterHead"
                 [] OTHER -> ResetFrom(st, i - 1)
Reset(st) == ResetFrom(st, Len(st.open))

\* ---- raw text: the element, its content, and its end tag at once --------------------------------------
PutChars(st, s) == FoldLeft(LAMBDA acc, c : AddChar(acc, c), st, s)
Raw(st, tok) == LET s == InsertFor(st, tok)
                    body == IF tok.n = "textarea" /\ tok.c # <<>> /\ tok.c[1] = 10 THEN Tail(tok.c) ELSE tok.c
                IN [Pop(PutChars(s, body)) EXCEPT !.ate = TRUE]

IsStart(tok, names) == tok.t \in {"start", "raw"} /\ tok.n \in names
IsEnd(tok, names) == tok.t = "end" /\ tok.n \in names
IsWs(tok) == tok.t = "char" /\ tok.c[1] \in Blanks
Hidden(tok) == \E p \in tok.a : p[1] = "type" /\ p[2] \in {"hidden", "HIDDEN", "Hidden"}

RECURSIVE Process(_, _)
RECURSIVE ModeStep(_, _, _)
Again(st, mode, tok) == Process(To(st, mode), tok)
Fostered(st, tok) == [ModeStep([st EXCEPT !.fo = TRUE], "inBody", tok) EXCEPT !.fo = FALSE]

Initial(st, tok) ==
  CASE IsWs(tok) -> st
    [] tok.t = "comment" -> AddComment(st, tok, End(1))
    [] tok.t = "doctype" -> To([Insert(st, [k |-> "doctype", ns |-> "h", n |-> "", a |-> {}, t |-> tok.c], End(1)) EXCEPT !.quirks = tok.c # S("html")], "beforeHtml")
    [] OTHER -> Again([st EXCEPT !.quirks = TRUE], "beforeHtml", tok)

Root(st, a) == LET s == Insert(st, El("h", "html", a), End(1)) IN To(Push(s, Len(s.nodes)), "beforeHead")
BeforeHtml(st, tok) ==
  CASE IsWs(tok) \/ tok.t = "doctype" -> st
    [] tok.t = "comment" -> AddComment(st, tok, End(1))
    [] IsStart(tok, {"html"}) -> Root(st, tok.a)
    [] tok.t = "end" /\ tok.n \notin {"head", "body", "html", "br"} -> st
    [] OTHER -> Process(Root(st, {}), tok)

BeforeHead(st, tok) ==
  CASE IsWs(tok) \/ tok.t = "doctype" -> st
    [] tok.t = "comment" -> AddComment(st, tok, Place(st, 0))
    [] IsStart(tok, {"html"}) -> ModeStep(st, "inBody", tok)
    [] IsStart(tok, {"head"}) -> LET s == InsertFor(st, tok) IN To([s EXCEPT !.head = Cur(s)], "inHead")
    [] tok.t = "end" /\ tok.n \notin {"head", "body", "html", "br"} -> st
    [] OTHER -> LET s == Phantom(st, "head") IN Again([s EXCEPT !.head = Cur(s)], "inHead", tok)

InHead(st, tok) ==
  CASE IsWs(tok) -> AddChar(st, tok.c[1])
    [] tok.t = "comment" -> AddComment(st, tok, Place(st, 0))
    [] tok.t = "doctype" -> st
    [] IsStart(tok, {"html"}) -> ModeStep(st, "inBody", tok)
    [] IsStart(tok, {"base", "basefont", "bgsound", "link", "meta"}) -> InsertVoid(st, tok)
    [] IsStart(tok, {"title", "noframes", "style", "noscript", "script"}) -> Raw(st, tok)
    [] IsEnd(tok, {"head"}) -> To(Pop(st), "afterHead")
    [] IsStart(tok, {"head"}) -> st
    [] tok.t = "end" /\ tok.n \notin {"body", "html", "br"} -> st
    [] OTHER -> Again(Pop(st), "afterHead", tok)

AfterHead(st, tok) ==
  CASE IsWs(tok) -> AddChar(st, tok.c[1])
    [] tok.t = "comment" -> AddComment(st, tok, Place(st, 0))
    [] tok.t = "doctype" -> st
    [] IsStart(tok, {"html"}) -> ModeStep(st, "inBody", tok)
    [] IsStart(tok, {"body"}) -> To(NoFrames(InsertFor(st, tok)), "inBody")
    [] IsStart(tok, {"frameset"}) -> To(InsertFor(st, tok), "inFrameset")
    [] IsStart(tok, {"base", "basefont", "bgsound", "link", "meta", "noframes", "script", "style", "title"}) ->
         RemoveOpen(ModeStep(Push(st, st.head), "inHead", tok), st.head)
    [] IsStart(tok, {"head"}) -> st
    [] tok.t = "end" /\ tok.n \notin {"body", "html", "br"} -> st
    [] OTHER -> Again(Phantom(st, "body"), "inBody", tok)

Blocks == {"address", "article", "aside", "blockquote", "center", "details", "dialog", "dir", "div", "dl", "fieldset", "figcaption", "figure",
           "footer", "header", "hgroup", "main", "nav", "ol", "p", "search", "section", "summary", "ul", "menu"}
BlockEnds == (Blocks \ {"p"}) \cup {"button", "listing", "pre"}
Formatting == {"b", "big", "code", "em", "font", "i", "s", "small", "strike", "strong", "tt", "u"}

\* which open list item a new one closes
RECURSIVE ItemFrom(_, _, _)
ItemFrom(st, i, names) == IF i = 0 THEN "" ELSE IF IsH(st, st.open[i], names) THEN st.nodes[st.open[i]].n
                          ELSE IF IsH(st, st.open[i], Special \ {"address", "div", "p"}) THEN "" ELSE ItemFrom(st, i - 1, names)
HasBody(st) == Len(st.open) > 1 /\ IsH(st, st.open[2], {"body"})

\* (odd: the library's HTML engine does not reconstruct here, a known finding)
EnterForeign(st, tok, ns) == LET r == Reconstruct(st)
                                 s0 == [r EXCEPT !.odd = @ \/ r # st]
                                 s == Insert(s0, El(ns, tok.n, tok.a), Place(s0, 0))
                             IN IF tok.sc THEN s ELSE Push(s, Len(s.nodes))

InBody(st, tok) ==
  CASE tok.t = "char" -> LET s == Reconstruct(st) IN AddChar(IF tok.c[1] \in Blanks THEN s ELSE NoFrames(s), tok.c[1])
    [] tok.t = "comment" -> AddComment(st, tok, Place(st, 0))
    [] tok.t = "doctype" -> st
    [] tok.t = "eof" -> st
    [] IsStart(tok, {"html"}) -> Missing(st, st.open[1], tok.a)
    [] IsStart(tok, {"base", "basefont", "bgsound", "link", "meta", "noframes", "script", "style", "title"}) -> ModeStep(st, "inHead", tok)
    [] IsStart(tok, {"body"}) -> IF HasBody(st) THEN NoFrames(Missing(st, st.open[2], tok.a)) ELSE st
    [] IsStart(tok, {"frameset"}) -> IF ~st.fsok \/ ~HasBody(st) THEN st
                                     ELSE To(InsertFor([Detach(st, st.open[2]) EXCEPT !.open = SubSeq(@, 1, 1)], tok), "inFrameset")
    [] IsEnd(tok, {"body"}) -> IF InScope(st, "default", {"body"}) THEN To(st, "afterBody") ELSE st
    [] IsEnd(tok, {"html"}) -> IF InScope(st, "default", {"body"}) THEN Again(st, "afterBody", tok) ELSE st
    [] IsStart(tok, Blocks) -> InsertFor(CloseP(st), tok)
    [] IsStart(tok, Headings) -> LET s == CloseP(st) IN InsertFor(IF CurIs(s, Headings) THEN Pop(s) ELSE s, tok)
    [] IsStart(tok, {"pre", "listing"}) -> [NoFrames(InsertFor(CloseP(st), tok)) EXCEPT !.lf = TRUE]
    [] IsStart(tok, {"form"}) -> IF st.form # 0 THEN st ELSE LET s == InsertFor(CloseP(st), tok) IN [s EXCEPT !.form = Cur(s)]
    [] IsStart(tok, {"li", "dd", "dt"}) ->
         LET s == NoFrames(st)
             item == ItemFrom(s, Len(s.open), IF tok.n = "li" THEN {"li"} ELSE {"dd", "dt"})
             c == IF item = "" THEN s ELSE PopUntil(ImplyExcept(s, {item}), {item})
         IN InsertFor(CloseP(c), tok)
    [] IsStart(tok, {"button"}) ->
         LET s == IF InScope(st, "default", {"button"}) THEN PopUntil(Imply(st), {"button"}) ELSE st IN NoFrames(InsertFor(Reconstruct(s), tok))
    [] IsEnd(tok, BlockEnds) -> IF InScope(st, "default", {tok.n}) THEN PopUntil(Imply(st), {tok.n}) ELSE st
    [] IsEnd(tok, {"form"}) ->
         LET f == st.form
             s == [st EXCEPT !.form = 0]
         IN IF f = 0 \/ ~ScopeFrom(st, Len(st.open), "default", {f}) THEN s ELSE RemoveOpen(Imply(s), f)
    [] IsEnd(tok, {"p"}) -> CloseP(IF InScope(st, "button", {"p"}) THEN st ELSE Phantom(st, "p"))
    [] IsEnd(tok, {"li", "dd", "dt"}) ->
         IF InScope(st, IF tok.n = "li" THEN "list" ELSE "default", {tok.n}) THEN PopUntil(ImplyExcept(st, {tok.n}), {tok.n}) ELSE st
    [] IsEnd(tok, Headings) -> IF InScope(st, "default", Headings) THEN PopUntil(Imply(st), Headings) ELSE st
    [] IsStart(tok, {"a"}) ->
         LET as == {i \in SinceMarker(st) : st.nodes[st.fmt[i]].n = "a"}
             id == st.fmt[CHOOSE i \in as : \A j \in as : j <= i]
             s == IF as = {} THEN st ELSE RemoveOpen(DropFmt(Agency(st, "a"), id), id)
         IN InsertFmt(Reconstruct(s), tok)
    [] IsStart(tok, Formatting) -> InsertFmt(Reconstruct(st), tok)
    [] IsStart(tok, {"nobr"}) ->
         LET s == Reconstruct(st)
             n == IF InScope(s, "default", {"nobr"}) THEN Reconstruct(Agency(s, "nobr")) ELSE s
         IN InsertFmt(n, tok)
    [] IsEnd(tok, Formatting \cup {"a", "nobr"}) -> Agency(st, tok.n)
    [] IsStart(tok, {"applet", "marquee", "object"}) -> NoFrames(Marker(InsertFor(Reconstruct(st), tok)))
    [] IsEnd(tok, {"applet", "marquee", "object"}) ->
         IF InScope(st, "default", {tok.n}) THEN ClearFmt(PopUntil(Imply(st), {tok.n})) ELSE st
    [] IsStart(tok, {"table"}) -> To(NoFrames(InsertFor(IF st.quirks THEN st ELSE CloseP(st), tok)), "inTable")
    [] IsEnd(tok, {"br"}) -> ModeStep(st, "inBody", Start0("br"))
    [] IsStart(tok, {"area", "br", "embed", "img", "keygen", "wbr"}) -> NoFrames(InsertVoid(Reconstruct(st), tok))
    [] IsStart(tok, {"input"}) -> LET s == InsertVoid(Reconstruct(st), tok) IN IF Hidden(tok) THEN s ELSE NoFrames(s)
    [] IsStart(tok, {"param", "source", "track"}) -> InsertVoid(st, tok)
    [] IsStart(tok, {"hr"}) -> NoFrames(InsertVoid(CloseP(st), tok))
    [] IsStart(tok, {"image"}) -> ModeStep(st, "inBody", [tok EXCEPT !.n = "img"])
    [] IsStart(tok, {"textarea", "iframe"}) -> Raw(NoFrames(st), tok)
    [] IsStart(tok, {"xmp"}) -> Raw(NoFrames(Reconstruct(CloseP(st))), tok)
    [] IsStart(tok, {"noembed", "noscript"}) -> Raw(st, tok)
    [] IsStart(tok, {"select"}) ->
         To(NoFrames(InsertFor(Reconstruct(st), tok)),
            IF st.mode \in {"inTable", "inCaption", "inTableBody", "inRow", "inCell"} THEN "inSelectInTable" ELSE "inSelect")
    [] IsStart(tok, {"optgroup", "option"}) -> InsertFor(Reconstruct(IF CurIs(st, {"option"}) THEN Pop(st) ELSE st), tok)
    [] IsStart(tok, {"rb", "rtc"}) -> InsertFor(IF InScope(st, "default", {"ruby"}) THEN Imply(st) ELSE st, tok)
    [] IsStart(tok, {"rp", "rt"}) -> InsertFor(IF InScope(st, "default", {"ruby"}) THEN ImplyExcept(st, {"rtc"}) ELSE st, tok)
    [] IsStart(tok, {"math"}) -> EnterForeign(st, tok, "m")
    [] IsStart(tok, {"svg"}) -> EnterForeign(st, tok, "s")
    [] IsStart(tok, {"caption", "col", "colgroup", "frame", "head", "tbody", "td", "tfoot", "th", "thead", "tr"}) -> st
    [] tok.t = "start" -> InsertFor(Reconstruct(st), tok)
    [] tok.t = "end" -> AnyEnd(st, tok.n)

InTable(st, tok) ==
  CASE tok.t = "char" -> IF CurIs(st, {"table", "tbody", "tfoot", "thead", "tr"})
                         THEN [st EXCEPT !.orig = st.mode, !.mode = "inTableText", !.pend = <<tok.c[1]>>] ELSE Fostered(st, tok)
    [] tok.t = "comment" -> AddComment(st, tok, Place(st, 0))
    [] tok.t = "doctype" -> st
    [] IsStart(tok, {"caption"}) -> To(InsertFor(Marker(PopTo(st, {"table", "html"})), tok), "inCaption")
    [] IsStart(tok, {"colgroup"}) -> To(InsertFor(PopTo(st, {"table", "html"}), tok), "inColumnGroup")
    [] IsStart(tok, {"col"}) -> Again(Phantom(PopTo(st, {"table", "html"}), "colgroup"), "inColumnGroup", tok)
    [] IsStart(tok, {"tbody", "tfoot", "thead"}) -> To(InsertFor(PopTo(st, {"table", "html"}), tok), "inTableBody")
    [] IsStart(tok, {"td", "th", "tr"}) -> Again(Phantom(PopTo(st, {"table", "html"}), "tbody"), "inTableBody", tok)
    [] IsStart(tok, {"table"}) -> IF InScope(st, "table", {"table"}) THEN LET s == PopUntil(st, {"table"}) IN Again(s, Reset(s), tok) ELSE st
    [] IsEnd(tok, {"table"}) -> IF InScope(st, "table", {"table"}) THEN LET s == PopUntil(st, {"table"}) IN To(s, Reset(s)) ELSE st
    [] IsEnd(tok, {"body", "caption", "col", "colgroup", "html", "tbody", "td", "tfoot", "th", "thead", "tr"}) -> st
    [] IsStart(tok, {"style", "script"}) -> ModeStep(st, "inHead", tok)
    [] IsStart(tok, {"input"}) /\ Hidden(tok) -> InsertVoid(st, tok)
    [] IsStart(tok, {"form"}) -> IF st.form # 0 THEN st ELSE LET s == InsertFor(st, tok) IN Pop([s EXCEPT !.form = Cur(s)])
    [] tok.t = "eof" -> st
    [] OTHER -> Fostered(st, tok)

InTableText(st, tok) ==
  IF tok.t = "char" THEN [st EXCEPT !.pend = Append(@, tok.c[1])]
  ELSE LET odd == \E i \in DOMAIN st.pend : st.pend[i] \notin Blanks
           s0 == [st EXCEPT !.pend = <<>>]
           s == IF odd THEN FoldLeft(LAMBDA acc, c : Fostered(acc, TokS("char", "", {}, <<c>>)), s0, st.pend) ELSE PutChars(s0, st.pend)
       IN Again(s, st.orig, tok)

InCaption(st, tok) ==
  LET closer == IsStart(tok, {"caption", "col", "colgroup", "tbody", "td", "tfoot", "th", "thead", "tr"}) \/ IsEnd(tok, {"table", "caption"})
      s == ClearFmt(PopUntil(Imply(st), {"caption"}))
  IN CASE closer -> IF ~InScope(st, "table", {"caption"}) THEN st ELSE IF tok.t = "end" /\ tok.n = "caption" THEN To(s, "inTable") ELSE Again(s, "inTable", tok)
       [] IsEnd(tok, {"body", "col", "colgroup", "html", "tbody", "td", "tfoot", "th", "thead", "tr"}) -> st
       [] OTHER -> ModeStep(st, "inBody", tok)

InColumnGroup(st, tok) ==
  CASE IsWs(tok) -> AddChar(st, tok.c[1])
    [] tok.t = "comment" -> AddComment(st, tok, Place(st, 0))
    [] tok.t = "doctype" -> st
    [] IsStart(tok, {"html"}) -> ModeStep(st, "inBody", tok)
    [] IsStart(tok, {"col"}) -> InsertVoid(st, tok)
    [] IsEnd(tok, {"colgroup"}) -> IF CurIs(st, {"colgroup"}) THEN To(Pop(st), "inTable") ELSE st
    [] IsEnd(tok, {"col"}) -> st
    [] tok.t = "eof" -> st
    [] OTHER -> IF CurIs(st, {"colgroup"}) THEN Again(Pop(st), "inTable", tok) ELSE st

BodyCtx == {"tbody", "tfoot", "thead", "html"}
InTableBody(st, tok) ==
  CASE IsStart(tok, {"tr"}) -> To(InsertFor(PopTo(st, BodyCtx), tok), "inRow")
    [] IsStart(tok, {"th", "td"}) -> Again(Phantom(PopTo(st, BodyCtx), "tr"), "inRow", tok)
    [] IsEnd(tok, {"tbody", "tfoot", "thead"}) -> IF InScope(st, "table", {tok.n}) THEN To(Pop(PopTo(st, BodyCtx)), "inTable") ELSE st
    [] IsStart(tok, {"caption", "col", "colgroup", "tbody", "tfoot", "thead"}) \/ IsEnd(tok, {"table"}) ->
         IF InScope(st, "table", {"tbody", "thead", "tfoot"}) THEN Again(Pop(PopTo(st, BodyCtx)), "inTable", tok) ELSE st
    [] IsEnd(tok, {"body", "caption", "col", "colgroup", "html", "td", "th", "tr"}) -> st
    [] OTHER -> ModeStep(st, "inTable", tok)

InRow(st, tok) ==
  LET out == Pop(PopTo(st, {"tr", "html"})) IN
  CASE IsStart(tok, {"th", "td"}) -> Marker(To(InsertFor(PopTo(st, {"tr", "html"}), tok), "inCell"))
    [] IsEnd(tok, {"tr"}) -> IF InScope(st, "table", {"tr"}) THEN To(out, "inTableBody") ELSE st
    [] IsStart(tok, {"caption", "col", "colgroup", "tbody", "tfoot", "thead", "tr"}) \/ IsEnd(tok, {"table"}) ->
         IF InScope(st, "table", {"tr"}) THEN Again(out, "inTableBody", tok) ELSE st
    [] IsEnd(tok, {"tbody", "tfoot", "thead"}) ->
         IF InScope(st, "table", {tok.n}) /\ InScope(st, "table", {"tr"}) THEN Again(out, "inTableBody", tok) ELSE st
    [] IsEnd(tok, {"body", "caption", "col", "colgroup", "html", "td", "th"}) -> st
    [] OTHER -> ModeStep(st, "inTable", tok)

CloseCell(st) == ClearFmt(PopUntil(Imply(st), {"td", "th"}))
InCell(st, tok) ==
  CASE IsEnd(tok, {"td", "th"}) -> IF InScope(st, "table", {tok.n}) THEN To(ClearFmt(PopUntil(Imply(st), {tok.n})), "inRow") ELSE st
    [] IsStart(tok, {"caption", "col", "colgroup", "tbody", "td", "tfoot", "th", "thead", "tr"}) ->
         IF InScope(st, "table", {"td", "th"}) THEN Again(CloseCell(st), "inRow", tok) ELSE st
    [] IsEnd(tok, {"body", "caption", "col", "colgroup", "html"}) -> st
    [] IsEnd(tok, {"table", "tbody", "tfoot", "thead", "tr"}) -> IF InScope(st, "table", {tok.n}) THEN Again(CloseCell(st), "inRow", tok) ELSE st
    [] OTHER -> ModeStep(st, "inBody", tok)

InSelect(st, tok) ==
  LET noOption == IF CurIs(st, {"option"}) THEN Pop(st) ELSE st
      noGroup == IF CurIs(noOption, {"optgroup"}) THEN Pop(noOption) ELSE noOption
      out == PopUntil(st, {"select"})
  IN CASE tok.t = "char" -> AddChar(st, tok.c[1])
       [] tok.t = "comment" -> AddComment(st, tok, Place(st, 0))
       [] tok.t \in {"doctype", "eof"} -> st
       [] IsStart(tok, {"html"}) -> ModeStep(st, "inBody", tok)
       [] IsStart(tok, {"option"}) -> InsertFor(noOption, tok)
       [] IsStart(tok, {"optgroup"}) -> InsertFor(noGroup, tok)
       [] IsStart(tok, {"hr"}) -> InsertVoid(noGroup, tok)
       [] IsEnd(tok, {"optgroup"}) ->
            LET s == IF CurIs(st, {"option"}) /\ IsH(st, st.open[Len(st.open) - 1], {"optgroup"}) THEN Pop(st) ELSE st
            IN IF CurIs(s, {"optgroup"}) THEN Pop(s) ELSE s
       [] IsEnd(tok, {"option"}) -> noOption
       [] IsStart(tok, {"select"}) \/ IsEnd(tok, {"select"}) -> IF InScope(st, "select", {"select"}) THEN To(out, Reset(out)) ELSE st
       [] IsStart(tok, {"input", "keygen", "textarea"}) -> IF InScope(st, "select", {"select"}) THEN Again(out, Reset(out), tok) ELSE st
       [] IsStart(tok, {"script"}) -> ModeStep(st, "inHead", tok)
       [] OTHER -> st
InSelectInTable(st, tok) ==
  LET names == {"caption", "table", "tbody", "tfoot", "thead", "tr", "td", "th"}
      out == PopUntil(st, {"select"})
  IN CASE IsStart(tok, names) -> Again(out, Reset(out), tok)
       [] IsEnd(tok, names) -> IF InScope(st, "table", {tok.n}) THEN Again(out, Reset(out), tok) ELSE st
       [] OTHER -> ModeStep(st, "inSelect", tok)

AfterBody(st, tok) ==
  CASE IsWs(tok) -> ModeStep(st, "inBody", tok)
    [] tok.t = "comment" -> AddComment(st, tok, End(st.open[1]))
    [] tok.t \in {"doctype", "eof"} -> st
    [] IsStart(tok, {"html"}) -> ModeStep(st, "inBody", tok)
    [] IsEnd(tok, {"html"}) -> To(st, "afterAfterBody")
    [] OTHER -> Again(st, "inBody", tok)
AfterAfterBody(st, tok) ==
  CASE IsWs(tok) -> ModeStep(st, "inBody", tok)
    [] tok.t = "comment" -> AddComment(st, tok, End(1))
    [] tok.t \in {"doctype", "eof"} -> st
    [] IsStart(tok, {"html"}) -> ModeStep(st, "inBody", tok)
    [] OTHER -> Again(st, "inBody", tok)

InFrameset(st, tok) ==
  CASE IsWs(tok) -> AddChar(st, tok.c[1])
    [] tok.t = "comment" -> AddComment(st, tok, Place(st, 0))
    [] IsStart(tok, {"html"}) -> ModeStep(st, "inBody", tok)
    [] IsStart(tok, {"frameset"}) -> InsertFor(st, tok)
    [] IsEnd(tok, {"frameset"}) -> IF Len(st.open) = 1 THEN st ELSE LET s == Pop(st) IN IF CurIs(s, {"frameset"}) THEN s ELSE To(s, "afterFrameset")
    [] IsStart(tok, {"frame"}) -> InsertVoid(st, tok)
    [] IsStart(tok, {"noframes"}) -> ModeStep(st, "inHead", tok)
    [] OTHER -> st
AfterFrameset(st, tok) ==
  CASE IsWs(tok) -> AddChar(st, tok.c[1])
    [] tok.t = "comment" -> AddComment(st, tok, Place(st, 0))
    [] IsStart(tok, {"html"}) -> ModeStep(st, "inBody", tok)
    [] IsEnd(tok, {"html"}) -> To(st, "afterAfterFrameset")
    [] IsStart(tok, {"noframes"}) -> ModeStep(st, "inHead", tok)
    [] OTHER -> st
AfterAfterFrameset(st, tok) ==
  CASE IsWs(tok) -> ModeStep(st, "inBody", tok)
    [] tok.t = "comment" -> AddComment(st, tok, End(1))
    [] IsStart(tok, {"html"}) -> ModeStep(st, "inBody", tok)
    [] IsStart(tok, {"noframes"}) -> ModeStep(st, "inHead", tok)
    [] OTHER -> st

ModeStep(st, m, tok) ==
  CASE m = "inBody" -> InBody(st, tok)
    [] m = "initial" -> Initial(st, tok)
    [] m = "beforeHtml" -> BeforeHtml(st, tok)
    [] m = "beforeHead" -> BeforeHead(st, tok)
    [] m = "inHead" -> InHead(st, tok)
    [] m = "afterHead" -> AfterHead(st, tok)
    [] m = "inTable" -> InTable(st, tok)
    [] m = "inTableText" -> InTableText(st, tok)
    [] m = "inCaption" -> InCaption(st, tok)
    [] m = "inColumnGroup" -> InColumnGroup(st, tok)
    [] m = "inTableBody" -> InTableBody(st, tok)
    [] m = "inRow" -> InRow(st, tok)
    [] m = "inCell" -> InCell(st, tok)
    [] m = "inSelect" -> InSelect(st, tok)
    [] m = "inSelectInTable" -> InSelectInTable(st, tok)
    [] m = "afterBody" -> AfterBody(st, tok)
    [] m = "afterAfterBody" -> AfterAfterBody(st, tok)
    [] m = "inFrameset" -> InFrameset(st, tok)
    [] m = "afterFrameset" -> AfterFrameset(st, tok)
    [] m = "afterAfterFrameset" -> AfterAfterFrameset(st, tok)

\* ---- foreign content --------------------------------------------------------------------------------------
Breakout == {"b", "big", "blockquote", "body", "br", "center", "code", "dd", "div", "dl", "dt", "em", "embed", "h1", "h2", "h3", "h4", "h5", "h6",
  "head", "hr", "i", "img", "li", "listing", "menu", "meta", "nobr", "ol", "p", "pre", "ruby", "s", "small", "span", "strong", "strike", "sub",
  "sup", "table", "tt", "u", "ul", "var"}
Adjusted(n, ns) == IF ns = "s" /\ n = "foreignobject" THEN "foreignObject" ELSE IF ns = "s" /\ n = "clippath" THEN "clipPath" ELSE n
RECURSIVE LeaveForeign(_)
LeaveForeign(st) == IF st.nodes[Cur(st)].ns = "h" \/ IsMathText(st, Cur(st)) \/ IsSvgHtml(st, Cur(st)) THEN st ELSE LeaveForeign(Pop(st))
IsForeign(st, tok) ==
  /\ st.open # <<>> /\ tok.t # "eof" /\ st.nodes[Cur(st)].ns # "h"
  /\ ~(IsMathText(st, Cur(st)) /\ (tok.t = "char" \/ (tok.t \in {"start", "raw"} /\ tok.n \notin {"mglyph", "malignmark"})))
  /\ ~(IsSvgHtml(st, Cur(st)) /\ tok.t \in {"char", "start", "raw"})
LowerStr(n) == IF n = "foreignObject" THEN "foreignobject" ELSE IF n = "clipPath" THEN "clippath" ELSE n
RECURSIVE ForeignEnd(_, _, _, _)
ForeignEnd(st, i, tok, first) ==
  IF i <= 1 THEN st
  ELSE IF ~first /\ st.nodes[st.open[i]].ns = "h" THEN ModeStep(st, st.mode, tok)
  ELSE IF LowerStr(st.nodes[st.open[i]].n) = tok.n THEN [st EXCEPT !.open = SubSeq(@, 1, i - 1)]
  ELSE ForeignEnd(st, i - 1, tok, FALSE)
Foreign(st, tok) ==
  CASE tok.t = "char" -> AddChar(IF tok.c[1] \in Blanks THEN st ELSE NoFrames(st), tok.c[1])
    [] tok.t = "comment" -> AddComment(st, tok, Place(st, 0))
    [] tok.t = "doctype" -> st
    [] IsStart(tok, Breakout) \/ (IsStart(tok, {"font"}) /\ (\E p \in tok.a : p[1] \in {"color", "face", "size"})) \/ IsEnd(tok, {"br", "p"}) ->
         LET s == LeaveForeign(st) IN ModeStep(s, s.mode, tok)
    [] tok.t \in {"start", "raw"} ->
         LET ns == st.nodes[Cur(st)].ns
             s == Insert(st, El(ns, Adjusted(tok.n, ns), tok.a), Place(st, 0))
         IN IF tok.sc THEN s ELSE Push(s, Len(s.nodes))
    [] tok.t = "end" -> ForeignEnd(st, Len(st.open), tok, TRUE)

Process(st, tok) == IF IsForeign(st, tok) THEN Foreign(st, tok) ELSE ModeStep(st, st.mode, tok)

\* ---- one token as written ------------------------------------------------------------------------------------
One(st, tok) == Process([st EXCEPT !.lf = FALSE, !.ate = FALSE], tok)
Chars1(st, s) ==
  LET from == IF s # <<>> /\ st.lf /\ s[1] = 10 THEN 2 ELSE 1
      s0 == [st EXCEPT !.lf = FALSE]
  IN FoldLeft(LAMBDA acc, c : One(acc, TokS("char", "", {}, <<c>>)), s0, SubSeq(s, from, Len(s)))
Token(st, tok) ==
  CASE tok.t = "text" -> Chars1(st, tok.c)
    [] tok.t = "raw" -> LET s == One(st, tok) IN IF s.ate THEN s ELSE One(Chars1(s, tok.c), TokS("end", tok.n, {}, <<>>))
    [] OTHER -> One(st, tok)
Finish(st) == One(st, TokS("eof", "", {}, <<>>))

\* ---- the finished document in the form observations have (either: an empty foreign element named like a void one) ---------------------------------------------------------
VoidEls == {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"}
Text1(v) == IF v = "" THEN <<>> ELSE S(v)
View(st, id, d) ==
  LET x == st.nodes[id] IN
  [d |-> d, k |-> IF x.k = "el" /\ x.n \in VoidEls /\ st.kids[id] = <<>> THEN (IF x.ns = "h" THEN "void" ELSE "either") ELSE x.k, n |-> Text1(x.n),
   a |-> {<<S(p[1]), Text1(p[2])>> : p \in x.a}, t |-> x.t]
RECURSIVE Flat(_, _, _)
Flat(st, ids, d) == IF ids = <<>> THEN <<>> ELSE <<View(st, ids[1], d)>> \o Flat(st, st.kids[ids[1]], d + 1) \o Flat(st, Tail(ids), d)
Document(st) == LET f == Finish(st) IN Flat(f, f.kids[1], 0)

\* ---- the token in source form ------------------------------------------------------------------------------------
AttrText(p) == S(" ") \o S(p[1]) \o S("=\"") \o Text1(p[2]) \o S("\"")
RECURSIVE AttrTexts(_)
AttrTexts(as) == IF as = {} THEN <<>> ELSE LET p == CHOOSE q \in as : TRUE IN AttrText(p) \o AttrTexts(as \ {p})
Written(tok) ==
  CASE tok.t = "start" -> S("<") \o S(tok.n) \o AttrTexts(tok.a) \o (IF tok.sc THEN S("/>") ELSE S(">"))
    [] tok.t = "end" -> S("</") \o S(tok.n) \o S(">")
    [] tok.t = "raw" -> S("<") \o S(tok.n) \o AttrTexts(tok.a) \o S(">") \o tok.c \o S("</") \o S(tok.n) \o S(">")
    [] tok.t = "comment" -> S("<!--") \o tok.c \o S("-->")
    [] tok.t = "doctype" -> S("<!DOCTYPE ") \o tok.c \o S(">")
    [] tok.t = "text" -> tok.c
=============================================================================

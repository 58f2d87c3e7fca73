----------------------------- MODULE StrictHtml -----------------------------
(* The strict HTML parser as a push-down automaton that consumes the input   *)
(* one character at a time.                                                  *)
(*                                                                           *)
(* Machine state m (a record):                                               *)
(*   st   lexical state ("data", "open", "tag", ... "err")                   *)
(*   buf  characters of the token being read                                 *)
(*   aux  second buffer (partial closing tag inside raw content)             *)
(*   nm   name of the tag being read                                         *)
(*   an   name of the attribute being read                                   *)
(*   at   attributes read so far, a set of <<name, value>>                   *)
(*   k    counter (dashes in a comment, matched letters of a closing tag)    *)
(*   stk  names of the open elements, outermost first                        *)
(*   free TRUE when the source uses something whose meaning is left open:     *)
(*        repeated attribute names, ambiguous character references            *)
(*   out  the document built so far: a flat pre-order sequence of nodes      *)
(*                                                                           *)
(* Node: [d |-> depth, k |-> kind, n |-> name, a |-> attributes, t |-> text] *)
EXTENDS CharRef

VoidNames == {S("area"), S("base"), S("br"), S("col"), S("embed"), S("hr"), S("img"),
              S("input"), S("link"), S("meta"), S("source"), S("track"), S("wbr")}
RawNames == {S("script"), S("style")}

M0 == [st |-> "data", buf |-> <<>>, aux |-> <<>>, nm |-> <<>>, an |-> <<>>, at |-> {},
       k |-> 0, stk |-> <<>>, free |-> FALSE, out |-> <<>>]

Node(m, kind, n, a, t) == [d |-> Len(m.stk), k |-> kind, n |-> n, a |-> a, t |-> t]

Err(m) == [M0 EXCEPT !.st = "err"]

\* ---- actions on complete tokens -------------------------------------------
EmitText(m) ==
  IF m.buf = <<>> THEN m
  ELSE [m EXCEPT !.out = Append(@, Node(m, "text", <<>>, {}, Decode(m.buf))), !.buf = <<>>,
                      !.free = @ \/ FreeText(m.buf)]

EmitLeaf(m, kind, t) ==
  [m EXCEPT !.out = Append(@, Node(m, kind, <<>>, {}, t)), !.buf = <<>>, !.st = "data"]

\* attributes with the same name: the last one stays
AddAttr(m, v) ==
  [m EXCEPT !.at = {p \in @ : p[1] # m.an} \cup {<<m.an, Decode(v)>>}, !.an = <<>>, !.buf = <<>>,
            !.free = @ \/ FreeText(v) \/ \E p \in m.at : p[1] = m.an]

EndTag(m, selfClosed) ==
  LET low == Low(m.nm)
      put(kind) == [m EXCEPT !.out = Append(@, Node(m, kind, m.nm, m.at, <<>>)),
                             !.at = {}, !.an = <<>>, !.buf = <<>>, !.aux = <<>>, !.k = 0, !.st = "data"]
  IN CASE low \in VoidNames -> [put("void") EXCEPT !.nm = <<>>]
       [] low \in RawNames /\ selfClosed -> [put("raw") EXCEPT !.nm = <<>>]
       [] low \in RawNames /\ ~selfClosed -> [put("raw") EXCEPT !.st = "raw"]
       [] OTHER -> IF selfClosed THEN [put("el") EXCEPT !.nm = <<>>]
                   ELSE [put("el") EXCEPT !.stk = Append(@, m.nm), !.nm = <<>>]

CloseElement(m) ==
  IF m.stk # <<>> /\ Low(m.nm) = Low(m.stk[Len(m.stk)])
  THEN [m EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1), !.nm = <<>>, !.st = "data"]
  ELSE Err(m)

CloseRaw(m) ==
  [m EXCEPT !.out = [@ EXCEPT ![Len(@)].t = TrimFast(m.buf, UniWs)],
            !.buf = <<>>, !.aux = <<>>, !.nm = <<>>, !.k = 0, !.st = "data"]

\* ---- one step per lexical state --------------------------------------------
StepData(m, c) ==
  IF c = LT THEN [EmitText(m) EXCEPT !.st = "open"] ELSE [m EXCEPT !.buf = Append(@, c)]

StepOpen(m, c) ==
  CASE c = BANG -> [m EXCEPT !.st = "bang", !.buf = <<>>]
    [] c = SLASH -> [m EXCEPT !.st = "close", !.nm = <<>>]
    [] c \in Alnum -> [m EXCEPT !.st = "tag", !.nm = <<c>>, !.at = {}]
    [] OTHER -> Err(m)

DoctypeWord == S("doctype ")

StepBang(m, c) ==
  LET b == Append(m.buf, c)
  IN IF b = S("--") THEN [m EXCEPT !.st = "comment", !.buf = <<>>, !.k = 0]
     ELSE IF b = S("-") THEN [m EXCEPT !.buf = b]
     ELSE IF Low(b) = DoctypeWord THEN [m EXCEPT !.st = "doctype", !.buf = <<>>]
     ELSE IF IsPrefix(Low(b), DoctypeWord) THEN [m EXCEPT !.buf = b]
     ELSE Err(m)

StepComment(m, c) ==
  IF c = GT /\ m.k = 2 THEN [EmitLeaf(m, "comment", SubSeq(m.buf, 1, Len(m.buf) - 2)) EXCEPT !.k = 0]
  ELSE [m EXCEPT !.buf = Append(@, c),
                 !.k = IF c = DASH THEN (IF @ = 2 THEN 2 ELSE @ + 1) ELSE 0]

StepDoctype(m, c) ==
  IF c = GT THEN EmitLeaf(m, "doctype", m.buf) ELSE [m EXCEPT !.buf = Append(@, c)]

StepBeforeAttr(m, c) ==
  CASE c \in Ws -> [m EXCEPT !.st = "battr"]
    [] c = GT -> EndTag(m, FALSE)
    [] c = SLASH -> [m EXCEPT !.st = "slash"]
    [] c \in {DQ, SQ, EQ} -> Err(m)
    [] OTHER -> [m EXCEPT !.st = "aname", !.an = <<c>>]

StepTag(m, c) ==
  IF c \in NameChar THEN [m EXCEPT !.nm = Append(@, c)] ELSE StepBeforeAttr(m, c)

StepAttrName(m, c) ==
  CASE c \in Ws -> [m EXCEPT !.st = "aafter"]
    [] c = EQ -> [m EXCEPT !.st = "bval", !.buf = <<>>]
    [] c \in {GT, SLASH, DQ, SQ} -> StepBeforeAttr(AddAttr(m, <<>>), c)
    [] OTHER -> [m EXCEPT !.an = Append(@, c)]

StepAfterName(m, c) ==
  CASE c \in Ws -> m
    [] c = EQ -> [m EXCEPT !.st = "bval", !.buf = <<>>]
    [] OTHER -> StepBeforeAttr(AddAttr(m, <<>>), c)

UnquotedStop == {TAB, LF, FF, CR, SP, DQ, SQ, EQ, LT, GT, GRAVE}

StepBeforeValue(m, c) ==
  CASE c \in Ws -> m
    [] c = DQ -> [m EXCEPT !.st = "dq", !.buf = <<>>]
    [] c = SQ -> [m EXCEPT !.st = "sq", !.buf = <<>>]
    [] c \in UnquotedStop -> Err(m)
    [] OTHER -> [m EXCEPT !.st = "unq", !.buf = <<c>>]

StepQuoted(m, c, q) ==
  IF c = q THEN [AddAttr(m, m.buf) EXCEPT !.st = "battr"] ELSE [m EXCEPT !.buf = Append(@, c)]

StepUnquoted(m, c) ==
  IF c \in UnquotedStop THEN StepBeforeAttr(AddAttr(m, m.buf), c) ELSE [m EXCEPT !.buf = Append(@, c)]

StepSlash(m, c) == IF c = GT THEN EndTag(m, TRUE) ELSE Err(m)

\* script and style: look for "</" name ws* ">", giving characters back on a mismatch
RawText(m, c) ==
  IF c = LT THEN [m EXCEPT !.st = "rawlt", !.aux = <<c>>]
  ELSE [m EXCEPT !.st = "raw", !.buf = Append(@, c)]

GiveBack(m, c) == RawText([m EXCEPT !.buf = @ \o m.aux, !.aux = <<>>, !.k = 0], c)

StepRawLt(m, c) ==
  IF c = SLASH THEN [m EXCEPT !.st = "rawname", !.k = 0, !.aux = Append(@, c)] ELSE GiveBack(m, c)

StepRawName(m, c) ==
  IF m.k < Len(m.nm)
  THEN IF LowC(c) = LowC(m.nm[m.k + 1]) THEN [m EXCEPT !.k = @ + 1, !.aux = Append(@, c)] ELSE GiveBack(m, c)
  ELSE CASE c \in Ws -> [m EXCEPT !.st = "rawws", !.aux = Append(@, c)]
         [] c = GT -> CloseRaw(m)
         [] OTHER -> GiveBack(m, c)

StepRawWs(m, c) ==
  CASE c \in Ws -> [m EXCEPT !.aux = Append(@, c)]
    [] c = GT -> CloseRaw(m)
    [] OTHER -> GiveBack(m, c)

StepClose(m, c) ==
  CASE c = GT -> CloseElement(m)
    [] c \in Ws -> [m EXCEPT !.st = "closews"]
    [] OTHER -> [m EXCEPT !.nm = Append(@, c)]

StepCloseWs(m, c) ==
  CASE c = GT -> CloseElement(m)
    [] c \in Ws -> m
    [] OTHER -> Err(m)

Step(m, c) ==
  CASE m.st = "data" -> StepData(m, c)
    [] m.st = "open" -> StepOpen(m, c)
    [] m.st = "tag" -> StepTag(m, c)
    [] m.st = "battr" -> StepBeforeAttr(m, c)
    [] m.st = "aname" -> StepAttrName(m, c)
    [] m.st = "aafter" -> StepAfterName(m, c)
    [] m.st = "bval" -> StepBeforeValue(m, c)
    [] m.st = "dq" -> StepQuoted(m, c, DQ)
    [] m.st = "sq" -> StepQuoted(m, c, SQ)
    [] m.st = "unq" -> StepUnquoted(m, c)
    [] m.st = "slash" -> StepSlash(m, c)
    [] m.st = "close" -> StepClose(m, c)
    [] m.st = "closews" -> StepCloseWs(m, c)
    [] m.st = "bang" -> StepBang(m, c)
    [] m.st = "comment" -> StepComment(m, c)
    [] m.st = "doctype" -> StepDoctype(m, c)
    [] m.st = "raw" -> RawText(m, c)
    [] m.st = "rawlt" -> StepRawLt(m, c)
    [] m.st = "rawname" -> StepRawName(m, c)
    [] m.st = "rawws" -> StepRawWs(m, c)
    [] m.st = "err" -> m

Feed(m, t) == FoldLeft(Step, m, t)

\* ---- end of input -----------------------------------------------------------
Accepts(m) == m.st = "data" /\ m.stk = <<>>
Result(m) == EmitText(m).out
Outcome(m) == IF Accepts(m)
              THEN LET e == EmitText(m) IN [ok |-> TRUE, doc |-> e.out, free |-> e.free]
              ELSE [ok |-> FALSE, doc |-> <<>>, free |-> FALSE]
Parse(t) == Outcome(Feed(M0, t))

\* ---- invariants of the machine ----------------------------------------------
Kinds == {"el", "void", "raw", "text", "comment", "doctype"}
Named2(k) == k \in {"el", "void", "raw"}

\* a flat sequence that is the pre-order of a forest in which only elements have children
WellFormed(doc) ==
  \A i \in DOMAIN doc :
    /\ doc[i].k \in Kinds
    /\ IF i = 1 THEN doc[i].d = 0
       ELSE doc[i].d <= doc[i - 1].d + (IF doc[i - 1].k = "el" THEN 1 ELSE 0)
    /\ Named2(doc[i].k) <=> doc[i].n # <<>>
    /\ ~Named2(doc[i].k) => doc[i].a = {}

NoEmptyText(doc) == \A i \in DOMAIN doc : doc[i].k = "text" => doc[i].t # <<>>
NoAdjacentText(doc) ==
  \A i \in 1..(Len(doc) - 1) : ~(doc[i].k = "text" /\ doc[i + 1].k = "text" /\ doc[i].d = doc[i + 1].d)

\* open elements are exactly the chain of last elements of depth 0, 1, 2, ...
StackOK(m) ==
  \A j \in DOMAIN m.stk :
    \E i \in DOMAIN m.out : m.out[i].d = j - 1 /\ m.out[i].k = "el" /\ m.out[i].n = m.stk[j]
                            /\ \A i2 \in i..Len(m.out) : m.out[i2].d >= j - 1

VoidKinds(doc) == \A i \in DOMAIN doc :
    /\ (doc[i].k = "void") <=> (Low(doc[i].n) \in VoidNames)
    /\ (doc[i].k = "raw") <=> (Low(doc[i].n) \in RawNames)

MachineOK(m) ==
  /\ WellFormed(m.out) /\ NoEmptyText(m.out) /\ NoAdjacentText(m.out)
  /\ StackOK(m) /\ VoidKinds(m.out)
  /\ m.st = "data" => NoAdjacentText(Result(m))
  /\ m.st = "err" => m.out = <<>> /\ m.stk = <<>>
=============================================================================

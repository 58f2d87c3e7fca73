-------------------------------- MODULE Xml --------------------------------
(* The XML parser as a push-down automaton that consumes the document one    *)
(* character at a time.  Its verdict has three values: the text is           *)
(* well-formed (and then the tree is determined), it is malformed, or its    *)
(* meaning is left open ("open": namespace violations, internal subsets,     *)
(* other encodings, XML 1.1 characters, what the known findings list).       *)
(*                                                                           *)
(* Machine state m:                                                          *)
(*   st     lexical state                                                    *)
(*   ret    state a character reference returns to                           *)
(*   buf    characters of the token being read                               *)
(*   rf     characters of the reference being read                           *)
(*   nm,an  name of the tag / of the attribute being read                    *)
(*   at     attributes of the tag: set of <<written name, value>>            *)
(*   q, k   quote in force; counter for "]]>" and "--"                       *)
(*   stk    open elements, outermost first: [n written name, ns bindings]    *)
(*   first  nothing but a byte order mark was seen                           *)
(*   dt     0 no doctype yet, 1 doctype (or element) seen, 2 with external   *)
(*   root   an element was seen                                              *)
(*   v11    the declaration says version 1.1                                 *)
(*   free   repeated local attribute names: the attributes are left open     *)
(*   out    the document so far                                              *)
(* Node: [d, k, n local name, a set of <<local name, value>>, t content,     *)
(*        p prefix, ns namespace / instruction data (<<>> or <<text>>),      *)
(*        nm prefixes in scope, a set of <<prefix, uri>>]                    *)
EXTENDS Chars, FiniteSets

QM == 63
LB == 91
RB == 93
COLON == 58
BOM == 65279

IsXmlChar(c) == c \in {9, 10, 13} \/ c \in 32..55295 \/ c \in 57344..65533 \/ c \in 65536..1114111
NameStartRanges == {<<58, 58>>, <<65, 90>>, <<95, 95>>, <<97, 122>>, <<192, 214>>, <<216, 246>>, <<248, 767>>, <<880, 893>>, <<895, 8191>>,
                    <<8204, 8205>>, <<8304, 8591>>, <<11264, 12271>>, <<12289, 55295>>, <<63744, 64975>>, <<65008, 65533>>, <<65536, 983039>>}
IsNameStart(c) == \E r \in NameStartRanges : r[1] <= c /\ c <= r[2]
IsNameChar(c) == IsNameStart(c) \/ c \in Digit \/ c \in {45, 46, 183} \/ c \in 768..879 \/ c \in 8255..8256

XmlUri == S("http://www.w3.org/XML/1998/namespace")
XmlnsUri == S("http://www.w3.org/2000/xmlns/")

M0 == [st |-> "start", ret |-> "", buf |-> <<>>, rf |-> <<>>, nm |-> <<>>, an |-> <<>>, at |-> {}, q |-> 0, k |-> 0,
       stk |-> <<>>, first |-> TRUE, dt |-> 0, root |-> FALSE, v11 |-> FALSE, free |-> FALSE, out |-> <<>>]

Err(m) == [M0 EXCEPT !.st = "err"]
Open(m) == [M0 EXCEPT !.st = "open"]
BadChar(m, c) == IF m.v11 /\ c # 0 THEN Open(m) ELSE Err(m)

Depth(m) == Len(m.stk)
Node(m, kind, n, t) == [d |-> Depth(m), k |-> kind, n |-> n, a |-> {}, t |-> t, p |-> <<>>, ns |-> <<>>, nm |-> {}]
Put(m, node) == [m EXCEPT !.out = Append(@, node), !.buf = <<>>, !.k = 0]

\* line ends and white space in values may be normalised or not: both sides are compared in one form
NoCR(t) == IF \A i \in DOMAIN t : t[i] # CR THEN t
           ELSE LET u == [i \in DOMAIN t |-> IF t[i] # CR THEN <<t[i]>> ELSE IF i < Len(t) /\ t[i + 1] = LF THEN <<>> ELSE <<LF>>]
                IN FlattenSeq(u)
SpaceVal(t) == LET u == NoCR(t) IN [i \in DOMAIN u |-> IF u[i] \in Ws THEN SP ELSE u[i]]
DropLead(t) == SubSeq(t, RunLen(t, 1, Ws) + 1, Len(t))
PiData(t) == LET u == DropLead(NoCR(t)) IN IF u = <<>> THEN <<>> ELSE <<u>>
AllWs(t) == \A i \in DOMAIN t : t[i] \in Ws

\* ---- names and namespaces ----------------------------------------------------
ColonAt(n) == {i \in DOMAIN n : n[i] = COLON}
QNameOK(n) == \/ ColonAt(n) = {}
              \/ Cardinality(ColonAt(n)) = 1 /\ LET i == CHOOSE i \in ColonAt(n) : TRUE
                                                IN i > 1 /\ i < Len(n) /\ IsNameStart(n[i + 1])
PrefixOf(n) == IF ColonAt(n) = {} THEN <<>> ELSE SubSeq(n, 1, (CHOOSE i \in ColonAt(n) : TRUE) - 1)
LocalOf(n) == IF ColonAt(n) = {} THEN n ELSE SubSeq(n, (CHOOSE i \in ColonAt(n) : TRUE) + 1, Len(n))

Env(m) == IF m.stk = <<>> THEN {} ELSE m.stk[Len(m.stk)].ns
Bound(env, p) == \E b \in env : b[1] = p
UriOf(env, p) == (CHOOSE b \in env : b[1] = p)[2]
IsDecl(n) == n = S("xmlns") \/ PrefixOf(n) = S("xmlns")
DeclOf(x) == <<IF x[1] = S("xmlns") THEN <<>> ELSE LocalOf(x[1]), x[2]>>
Reserved == {XmlUri, XmlnsUri, S("xml"), S("xmlns")}
\* declarations whose legality is a matter of the namespaces specification
OddDecl(x) == \/ x[2] \in Reserved \/ (x[1] # S("xmlns") /\ x[2] = <<>>)
              \/ LocalOf(x[1]) \in {S("xml")} \/ x[1] = S("xmlns:xmlns")

FinishTag(m, empty) ==
  LET decls == {DeclOf(x) : x \in {y \in m.at : IsDecl(y[1])}}
      plain == {y \in m.at : ~IsDecl(y[1])}
      env0 == {b \in Env(m) : ~Bound(decls, b[1])} \cup decls
      env == {b \in env0 : b # <<<<>>, <<>>>>}
      p == PrefixOf(m.nm)
      locals == {LocalOf(y[1]) : y \in plain}
      node == [d |-> Depth(m), k |-> "el", n |-> LocalOf(m.nm), a |-> {<<LocalOf(y[1]), y[2]>> : y \in plain}, t |-> <<>>,
               p |-> IF p = <<>> THEN <<>> ELSE <<p>>,
               ns |-> IF Bound(env, p) THEN <<UriOf(env, p)>> ELSE <<>>, nm |-> env]
  IN IF \/ p \in {S("xml"), S("xmlns")}
        \/ p # <<>> /\ ~Bound(env, p)
        \/ \E y \in plain : LET ap == PrefixOf(y[1]) IN ap # <<>> /\ ap # S("xml") /\ ~Bound(env, ap)
     THEN Open(m)
     ELSE [Put(m, node) EXCEPT !.st = "data", !.nm = <<>>, !.an = <<>>, !.at = {}, !.root = TRUE, !.dt = 1 + @ \div 2,
                               !.free = @ \/ Cardinality(locals) < Cardinality(plain),
                               !.stk = IF empty THEN @ ELSE Append(@, [n |-> m.nm, ns |-> env])]

EndTag(m, empty) == IF QNameOK(m.nm) THEN FinishTag(m, empty) ELSE Open(m)

AddAttr(m, v) ==
  LET x == <<m.an, v>>
  IN IF ~QNameOK(m.an) THEN Open(m)
     ELSE IF IsDecl(m.an) /\ OddDecl(x) THEN Open(m)
     ELSE IF \E y \in m.at : y[1] = m.an THEN (IF IsDecl(m.an) THEN Open(m) ELSE Err(m))
     ELSE [m EXCEPT !.at = @ \cup {x}, !.an = <<>>, !.buf = <<>>, !.st = "aval"]

\* ---- text ----------------------------------------------------------------------
FlushText(m) == IF m.buf = <<>> THEN m
                ELSE IF AllWs(m.buf) THEN [m EXCEPT !.buf = <<>>, !.k = 0]
                ELSE Put(m, Node(m, "text", <<>>, NoCR(m.buf)))

StepData(m, c) ==
  CASE c = LT -> [FlushText(m) EXCEPT !.st = "lt", !.k = 0]
    [] Depth(m) = 0 -> IF c \in Ws THEN [m EXCEPT !.st = "data", !.first = FALSE] ELSE Err(m)
    [] c = AMP -> [m EXCEPT !.st = "ref", !.ret = "data", !.rf = <<>>, !.k = 0]
    [] c = GT /\ m.k >= 2 -> Err(m)
    [] OTHER -> IF IsXmlChar(c) THEN [m EXCEPT !.buf = Append(@, c), !.k = IF c = RB THEN @ + 1 ELSE 0] ELSE BadChar(m, c)

StepStart(m, c) == IF c = BOM THEN [m EXCEPT !.st = "bom"] ELSE StepData(m, c)

\* ---- references -------------------------------------------------------------------
FiveNames == [lt |-> 60, gt |-> 62, amp |-> 38, apos |-> 39, quot |-> 34]
HexVal(c) == IF c \in Digit THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
NumVal(ds, base) == FoldLeft(LAMBDA acc, c : IF acc > 1114111 THEN acc ELSE acc * base + HexVal(c), 0, ds)
\* <<character>>, or <<>> when the reference denotes nothing
RefChar(r) ==
  IF r = <<>> THEN <<>>
  ELSE IF r[1] = HASH
  THEN LET hex == Len(r) >= 2 /\ r[2] = 120
           ds == SubSeq(r, IF hex THEN 3 ELSE 2, Len(r))
           v == NumVal(ds, IF hex THEN 16 ELSE 10)
       IN IF ds = <<>> \/ \E i \in DOMAIN ds : ds[i] \notin (IF hex THEN HexDigit ELSE Digit) THEN <<>>
          ELSE IF IsXmlChar(v) THEN <<v>> ELSE <<>>
  ELSE IF Str(r) \in DOMAIN FiveNames THEN <<FiveNames[Str(r)]>> ELSE <<>>
StepRef(m, c) ==
  IF c = SEMI
  THEN LET x == RefChar(m.rf)
       IN IF x # <<>> THEN [m EXCEPT !.st = m.ret, !.buf = @ \o x, !.rf = <<>>]
          ELSE IF m.v11 \/ (m.dt = 2 /\ m.rf # <<>> /\ m.rf[1] # HASH) THEN Open(m) ELSE Err(m)
  ELSE IF (m.rf = <<>> /\ (c = HASH \/ IsNameStart(c))) \/ (m.rf # <<>> /\ IsNameChar(c)) THEN [m EXCEPT !.rf = Append(@, c)]
  ELSE Err(m)

\* ---- constructs ----------------------------------------------------------------------
StepLt(m, c) ==
  CASE c = BANG -> [m EXCEPT !.st = "bang", !.buf = <<>>, !.first = FALSE]
    [] c = QM -> [m EXCEPT !.st = "pi", !.nm = <<>>]
    [] c = SLASH -> IF Depth(m) > 0 THEN [m EXCEPT !.st = "close", !.nm = <<>>] ELSE Err(m)
    [] IsNameStart(c) -> IF Depth(m) = 0 /\ m.root THEN Err(m) ELSE [m EXCEPT !.st = "tag", !.nm = <<c>>, !.at = {}, !.first = FALSE]
    [] OTHER -> Err(m)

StepTagEnd(m, c) ==
  CASE c = GT -> EndTag(m, FALSE)
    [] c = SLASH -> [m EXCEPT !.st = "slash"]
    [] c \in Ws -> [m EXCEPT !.st = "battr"]
    [] OTHER -> Err(m)
StepTag(m, c) == IF IsNameChar(c) THEN [m EXCEPT !.nm = Append(@, c)] ELSE StepTagEnd(m, c)
StepBeforeAttr(m, c) == IF IsNameStart(c) THEN [m EXCEPT !.st = "aname", !.an = <<c>>] ELSE StepTagEnd(m, c)
StepSlash(m, c) == IF c = GT THEN EndTag(m, TRUE) ELSE Err(m)
StepAttrName(m, c) ==
  CASE IsNameChar(c) -> [m EXCEPT !.an = Append(@, c)]
    [] c = EQ -> [m EXCEPT !.st = "bval"]
    [] c \in Ws -> [m EXCEPT !.st = "aeq"]
    [] OTHER -> Err(m)
StepAttrEq(m, c) == IF c \in Ws THEN m ELSE IF c = EQ THEN [m EXCEPT !.st = "bval"] ELSE Err(m)
StepBeforeValue(m, c) == IF c \in Ws THEN m ELSE IF c \in {DQ, SQ} THEN [m EXCEPT !.st = "val", !.q = c, !.buf = <<>>] ELSE Err(m)
StepValue(m, c) ==
  CASE c = m.q -> AddAttr(m, SpaceVal(m.buf))
    [] c = LT -> [m EXCEPT !.st = "vlt"]
    [] c = AMP -> [m EXCEPT !.st = "ref", !.ret = "val", !.rf = <<>>]
    [] OTHER -> IF IsXmlChar(c) THEN [m EXCEPT !.buf = Append(@, c)] ELSE BadChar(m, c)
\* a known finding: some constructs are accepted inside attribute values
StepValueLt(m, c) == IF c = SLASH THEN Open(m) ELSE IF c = BANG THEN [m EXCEPT !.st = "vbang"] ELSE Err(m)
StepValueBang(m, c) == IF c \in {DASH, LB, 68} THEN Open(m) ELSE Err(m)

StepClose(m, c) ==
  LET done == IF m.nm = m.stk[Len(m.stk)].n THEN [m EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1), !.nm = <<>>, !.st = "data"] ELSE Err(m)
  IN CASE m.st = "close" /\ (IF m.nm = <<>> THEN IsNameStart(c) ELSE IsNameChar(c)) -> [m EXCEPT !.nm = Append(@, c)]
       [] m.nm # <<>> /\ c = GT -> done
       [] m.nm # <<>> /\ c \in Ws -> [m EXCEPT !.st = "closews"]
       [] OTHER -> Err(m)

CdataWord == S("[CDATA[")
DoctypeWord == S("DOCTYPE")
StepBang(m, c) ==
  LET b == Append(m.buf, c)
  IN IF b = S("--") THEN [m EXCEPT !.st = "comment", !.buf = <<>>, !.k = 0]
     ELSE IF b = CdataWord THEN (IF Depth(m) > 0 THEN [m EXCEPT !.st = "cdata", !.buf = <<>>, !.k = 0] ELSE Err(m))
     ELSE IF b = DoctypeWord THEN (IF m.dt = 0 THEN [m EXCEPT !.st = "doctype", !.buf = <<>>, !.q = 0] ELSE Err(m))
     ELSE IF IsPrefix(b, S("--")) \/ IsPrefix(b, CdataWord) \/ IsPrefix(b, DoctypeWord) THEN [m EXCEPT !.buf = b]
     ELSE Err(m)

StepComment(m, c) ==
  IF m.k = 2 THEN (IF c = GT THEN [Put(m, Node(m, "comment", <<>>, NoCR(SubSeq(m.buf, 1, Len(m.buf) - 2)))) EXCEPT !.st = "data"] ELSE Err(m))
  ELSE IF ~IsXmlChar(c) THEN BadChar(m, c)
  ELSE [m EXCEPT !.buf = Append(@, c), !.k = IF c = DASH THEN @ + 1 ELSE 0]

StepCdata(m, c) ==
  IF c = GT /\ m.k >= 2 THEN [Put(m, Node(m, "cdata", <<>>, NoCR(SubSeq(m.buf, 1, Len(m.buf) - 2)))) EXCEPT !.st = "data"]
  ELSE IF ~IsXmlChar(c) THEN BadChar(m, c)
  ELSE [m EXCEPT !.buf = Append(@, c), !.k = IF c = RB THEN @ + 1 ELSE 0]

\* processing instructions and the declaration
IsXmlName(n) == Len(n) = 3 /\ Low(n) = S("xml")
EmitPi(m, data) == [Put(m, [Node(m, "pi", m.nm, <<>>) EXCEPT !.ns = data]) EXCEPT !.st = "data", !.nm = <<>>, !.first = FALSE]
StepPi(m, c) ==
  CASE (m.nm = <<>> /\ IsNameStart(c)) \/ (m.nm # <<>> /\ IsNameChar(c)) ->
         IF c = COLON THEN Open(m) ELSE [m EXCEPT !.nm = Append(@, c)]
    [] m.nm = <<>> /\ c \in Ws -> Open(m)  \* a known finding: instructions without a name are accepted
    [] m.nm # <<>> /\ c = QM -> [m EXCEPT !.st = "piq"]
    [] m.nm # <<>> /\ c \in Ws -> IF ~IsXmlName(m.nm) THEN [m EXCEPT !.st = "pidata", !.buf = <<c>>]
                                  ELSE IF m.nm = S("xml") /\ m.first THEN [m EXCEPT !.st = "decl", !.buf = <<c>>] ELSE Err(m)
    [] OTHER -> Err(m)
StepPiQ(m, c) == IF c = GT /\ ~IsXmlName(m.nm) THEN EmitPi(m, <<>>) ELSE Err(m)

\* the declaration, read as a whole once it is complete
SkipWs(t, i) == i + RunLen(t, i, Ws)
\* <<next position, value>> of  word Eq "value"  at i, or <<0, <<>>>> when it is not there
Assign(t, i, word) ==
  LET w == S(word)
      j == SkipWs(t, i + Len(w))
      l == SkipWs(t, j + 1)
      close == {x \in (l + 1)..Len(t) : t[x] = t[l]}
  IN IF i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w /\ j <= Len(t) /\ t[j] = EQ
        /\ l <= Len(t) /\ t[l] \in {DQ, SQ} /\ close # {}
     THEN LET e == CHOOSE x \in close : \A y \in close : x <= y IN <<e + 1, SubSeq(t, l + 1, e - 1)>>
     ELSE <<0, <<>>>>
DeclVerdict(t) ==
  LET ver == Assign(t, SkipWs(t, 1), "version")
      i1 == IF ver[1] = 0 THEN 0 ELSE SkipWs(t, ver[1])
      enc == IF i1 > ver[1] THEN Assign(t, i1, "encoding") ELSE <<0, <<>>>>
      p2 == IF enc[1] > 0 THEN enc[1] ELSE ver[1]
      i2 == IF ver[1] = 0 THEN 0 ELSE SkipWs(t, p2)
      alone == IF i2 > p2 THEN Assign(t, i2, "standalone") ELSE <<0, <<>>>>
      p3 == IF alone[1] > 0 THEN alone[1] ELSE p2
      end == SkipWs(t, p3)
  IN IF ver[1] = 0 \/ end <= Len(t) THEN "bad"
     ELSE IF ver[2] \notin {S("1.0"), S("1.1")} THEN "open"
     ELSE IF alone[1] > 0 /\ alone[2] \notin {S("yes"), S("no")} THEN "bad"
     ELSE IF enc[1] > 0 /\ Low(enc[2]) # S("utf-8") THEN "open"
     ELSE IF ver[2] = S("1.1") THEN "v11" ELSE "ok"

StepPiData(m, c) ==
  IF c = GT /\ m.buf # <<>> /\ m.buf[Len(m.buf)] = QM
  THEN LET t == SubSeq(m.buf, 1, Len(m.buf) - 1)
       IN IF m.st = "pidata" THEN EmitPi(m, PiData(t))
          ELSE LET v == DeclVerdict(t)
               IN CASE v = "bad" -> Err(m) [] v = "open" -> Open(m)
                    [] OTHER -> [m EXCEPT !.st = "data", !.buf = <<>>, !.nm = <<>>, !.first = FALSE, !.v11 = v = "v11"]
  ELSE IF IsXmlChar(c) THEN [m EXCEPT !.buf = Append(@, c)] ELSE BadChar(m, c)

\* ---- the document type declaration, without an internal subset -----------------------------
PubidChar(c) == c \in Alnum \cup {32, 13, 10} \cup ToSet(S("-'()+,./:=?;!*#@$_%"))
Literal(t, i) == LET close == {x \in (i + 1)..Len(t) : t[x] = t[i]}
                 IN IF i <= Len(t) /\ t[i] \in {DQ, SQ} /\ close # {}
                    THEN (CHOOSE x \in close : \A y \in close : x <= y) + 1 ELSE 0
\* 0 not a doctype, 1 a plain one, 2 one with an external identifier
DoctypeVerdict(t) ==
  LET i == SkipWs(t, 1)
      nlen == IF i > Len(t) \/ ~IsNameStart(t[i]) THEN 0
              ELSE LET stop == {x \in i..Len(t) : ~IsNameChar(t[x])}
                   IN (IF stop = {} THEN Len(t) + 1 ELSE CHOOSE x \in stop : \A y \in stop : x <= y) - i
      e == i + nlen
      w == SkipWs(t, e)
      at(word) == w > e /\ w + Len(S(word)) <= Len(t) /\ SubSeq(t, w, w + Len(S(word)) - 1) = S(word) /\ t[w + Len(S(word))] \in Ws
      sys == IF at("SYSTEM") THEN Literal(t, SkipWs(t, w + 6)) ELSE 0
      pub1 == IF at("PUBLIC") THEN Literal(t, SkipWs(t, w + 6)) ELSE 0
      pub2 == IF pub1 > 0 /\ SkipWs(t, pub1) > pub1 THEN Literal(t, SkipWs(t, pub1)) ELSE 0
      end == IF sys > 0 THEN sys ELSE pub2
  IN IF i = 1 \/ nlen = 0 THEN 0
     ELSE IF w > Len(t) THEN 1
     ELSE IF end > 0 /\ SkipWs(t, end) > Len(t) THEN 2 ELSE 0
\* brackets, markup and quoted ends inside are left open, as is a doctype that is not one
StepDoctype(m, c) ==
  IF c \in {LB, LT, AMP, 37} \/ ~IsXmlChar(c) \/ (c = GT /\ m.q # 0) THEN Open(m)
  ELSE IF c = GT
  THEN LET v == DoctypeVerdict(m.buf) IN IF v = 0 THEN Open(m) ELSE [m EXCEPT !.st = "data", !.buf = <<>>, !.dt = v]
  ELSE [m EXCEPT !.buf = Append(@, c), !.q = IF c \in {DQ, SQ} THEN (IF @ = 0 THEN c ELSE IF @ = c THEN 0 ELSE @) ELSE @]

Step(m, c) ==
  CASE m.v11 /\ c \in 127..159 /\ m.st # "err" -> Open(m)  \* restricted in version 1.1
    [] m.st = "data" -> StepData(m, c)
    [] m.st = "lt" -> StepLt(m, c)
    [] m.st = "tag" -> StepTag(m, c)
    [] m.st = "battr" -> StepBeforeAttr(m, c)
    [] m.st = "aname" -> StepAttrName(m, c)
    [] m.st = "aeq" -> StepAttrEq(m, c)
    [] m.st = "bval" -> StepBeforeValue(m, c)
    [] m.st = "val" -> StepValue(m, c)
    [] m.st = "vlt" -> StepValueLt(m, c)
    [] m.st = "vbang" -> StepValueBang(m, c)
    [] m.st = "aval" -> StepTagEnd(m, c)
    [] m.st = "slash" -> StepSlash(m, c)
    [] m.st = "close" -> StepClose(m, c)
    [] m.st = "closews" -> StepClose(m, c)
    [] m.st = "ref" -> StepRef(m, c)
    [] m.st = "bang" -> StepBang(m, c)
    [] m.st = "comment" -> StepComment(m, c)
    [] m.st = "cdata" -> StepCdata(m, c)
    [] m.st = "pi" -> StepPi(m, c)
    [] m.st = "piq" -> StepPiQ(m, c)
    [] m.st \in {"pidata", "decl"} -> StepPiData(m, c)
    [] m.st = "doctype" -> StepDoctype(m, c)
    [] m.st = "start" -> StepStart(m, c)
    [] m.st = "bom" -> StepData(m, c)
    [] m.st \in {"err", "open"} -> m

Feed(m, t) == FoldLeft(Step, m, t)

\* ---- end of input --------------------------------------------------------------------------------
Verdict(m) == IF m.st = "open" THEN "open"
              ELSE IF m.st = "data" /\ m.stk = <<>> /\ m.root THEN "ok" ELSE "bad"
Outcome(m) == [verdict |-> Verdict(m), free |-> m.free, doc |-> IF Verdict(m) = "ok" THEN m.out ELSE <<>>]
Parse(t) == Outcome(Feed(M0, t))

\* ---- invariants of the machine ---------------------------------------------------------------------
Kinds == {"el", "text", "comment", "cdata", "pi"}
WellFormed(doc) ==
  \A i \in DOMAIN doc :
    /\ doc[i].k \in Kinds
    /\ IF i = 1 THEN doc[i].d = 0 ELSE doc[i].d <= doc[i - 1].d + (IF doc[i - 1].k = "el" THEN 1 ELSE 0)
    /\ (doc[i].k \in {"el", "pi"}) <=> doc[i].n # <<>>
    /\ doc[i].k # "el" => doc[i].a = {} /\ doc[i].nm = {} /\ doc[i].p = <<>>
    /\ doc[i].k = "text" => ~AllWs(doc[i].t) /\ doc[i].d > 0
    /\ doc[i].k = "cdata" => doc[i].d > 0
OneRoot(doc) == Cardinality({i \in DOMAIN doc : doc[i].d = 0 /\ doc[i].k = "el"}) <= 1
NoAdjacentText(doc) == \A i \in 1..(Len(doc) - 1) : ~(doc[i].k = "text" /\ doc[i + 1].k = "text" /\ doc[i].d = doc[i + 1].d)
StackOK(m) ==
  \A j \in DOMAIN m.stk : \E i \in DOMAIN m.out :
     m.out[i].d = j - 1 /\ m.out[i].k = "el" /\ m.out[i].n = LocalOf(m.stk[j].n) /\ \A i2 \in i..Len(m.out) : m.out[i2].d >= j - 1
MachineOK(m) == /\ WellFormed(m.out) /\ OneRoot(m.out) /\ NoAdjacentText(m.out) /\ StackOK(m)
                /\ m.st \in {"err", "open"} => m.out = <<>> /\ m.stk = <<>>
                /\ Verdict(m) = "ok" => \E i \in DOMAIN m.out : m.out[i].d = 0 /\ m.out[i].k = "el"
=============================================================================

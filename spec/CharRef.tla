------------------------------ MODULE CharRef ------------------------------
(* Character references.  The table of named references is the WHATWG one,  *)
(* taken from an independent source (Python's html.entities), not from the  *)
(* code under test.                                                         *)
EXTENDS Chars, FiniteSets, Json, TLC

Named == JsonDeserialize("data/entities.json")   \* "amp;" |-> <<38>>
NamedSet == DOMAIN Named

IsNamed(t) == Len(t) <= 34 /\ Str(t) \in NamedSet
NamedText(t) == Named[Str(t)]

DigitVal(c) == CASE c \in Digit -> c - 48
                 [] c \in 65..70 -> c - 55
                 [] c \in 97..102 -> c - 87

MaxCode == 1114111
IsScalar(n) == n <= MaxCode /\ ~(n \in 55296..57343)

\* value of a run of digits; anything beyond the last code point collapses to MaxCode + 1
NumVal(ds, base) ==
  FoldLeft(LAMBDA acc, c : IF acc > MaxCode THEN acc
                           ELSE LET v == acc * base + DigitVal(c)
                                IN IF v > MaxCode THEN MaxCode + 1 ELSE v, 0, ds)

\* g: the characters after an ampersand up to the next one (a reference never
\* extends over another ampersand).  Result: what "&" \o g denotes.
DecodeSegment(g) ==
  LET verbatim == <<AMP>> \o g
      rest(n) == SubSeq(g, n + 1, Len(g))
      numeric(start, set, base) ==
        LET n == RunLen(g, start, set)
            v == NumVal(SubSeq(g, start, start + n - 1), base)
        IN IF n > 0 /\ start + n <= Len(g) /\ g[start + n] = SEMI /\ IsScalar(v)
           THEN <<v>> \o rest(start + n) ELSE verbatim
  IN IF g = <<>> THEN verbatim
     ELSE IF g[1] = HASH
     THEN IF Len(g) >= 2 /\ g[2] \in {88, 120} THEN numeric(3, HexDigit, 16) ELSE numeric(2, Digit, 10)
     ELSE
       LET l == RunLen(g, 1, Letter)
           d == RunLen(g, l + 1, Digit)
           semi == l + d < Len(g) /\ g[l + d + 1] = SEMI
           named(n) == NamedText(SubSeq(g, 1, n)) \o rest(n)
       IN IF l = 0 THEN verbatim
          ELSE IF semi /\ IsNamed(SubSeq(g, 1, l + d + 1)) THEN named(l + d + 1)
          ELSE IF (d > 0 \/ ~semi) /\ IsNamed(SubSeq(g, 1, l + d)) THEN named(l + d)
          ELSE IF d > 0 /\ IsNamed(SubSeq(g, 1, l)) THEN named(l)
          ELSE verbatim

\* What a segment denotes is left open in two cases: references to control
\* characters, and legacy names next to digits that are not part of them.
OpenControl == (0..8) \cup {11} \cup (14..31) \cup (127..159)
FreeSegment(g) ==
  IF g = <<>> THEN FALSE
  ELSE IF g[1] = HASH
  THEN LET hex == Len(g) >= 2 /\ g[2] \in {88, 120}
           start == IF hex THEN 3 ELSE 2
           n == RunLen(g, start, IF hex THEN HexDigit ELSE Digit)
       IN n > 0 /\ NumVal(SubSeq(g, start, start + n - 1), IF hex THEN 16 ELSE 10) \in OpenControl
  ELSE LET l == RunLen(g, 1, Letter)
           d == RunLen(g, l + 1, Digit)
           semi == l + d < Len(g) /\ g[l + d + 1] = SEMI
       IN /\ l > 0 /\ d > 0
          /\ ~(semi /\ IsNamed(SubSeq(g, 1, l + d + 1)))
          /\ \/ \E k \in 0..(d - 1) : IsNamed(SubSeq(g, 1, l + k))
             \/ IsNamed(SubSeq(g, 1, l + d)) /\ l + d < Len(g) /\ g[l + d + 1] \in Alnum

\* positions of c in t, as a sequence
PosSeq(t, c) == SelectSeq([i \in DOMAIN t |-> i], LAMBDA i : t[i] = c)

FreeText(t) ==
  LET amps == PosSeq(t, AMP)
      n == Len(amps)
  IN \E k \in 1..n : FreeSegment(SubSeq(t, amps[k] + 1, IF k = n THEN Len(t) ELSE amps[k + 1] - 1))

Decode(t) ==
  LET amps == PosSeq(t, AMP)
      n == Len(amps)
      seg(k) == SubSeq(t, amps[k] + 1, IF k = n THEN Len(t) ELSE amps[k + 1] - 1)
  IN IF n = 0 THEN t
     ELSE SubSeq(t, 1, amps[1] - 1) \o FlattenSeq([k \in 1..n |-> DecodeSegment(seg(k))])
=============================================================================

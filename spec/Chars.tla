------------------------------- MODULE Chars -------------------------------
(* Characters are Unicode code points (naturals), texts are sequences of    *)
(* them.  S("...") turns an ASCII literal into a text.                      *)
EXTENDS Integers, Sequences, SequencesExt, TLC

AsciiTable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf == [c \in {SubSeq(AsciiTable, i, i) : i \in 1..Len(AsciiTable)} |->
             31 + CHOOSE i \in 1..Len(AsciiTable) : SubSeq(AsciiTable, i, i) = c]
          @@ ("\t" :> 9) @@ ("\n" :> 10) @@ ("\r" :> 13) @@ ("\f" :> 12)

S(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

\* the other direction, used to look names up in tables keyed by strings
CharOf(c) == IF c \in 32..126 THEN SubSeq(AsciiTable, c - 31, c - 31) ELSE "?"
Str(t) == FoldLeft(LAMBDA acc, c : acc \o CharOf(c), "", t)

TAB == 9
LF == 10
FF == 12
CR == 13
SP == 32
BANG == 33
DQ == 34
HASH == 35
AMP == 38
SQ == 39
DASH == 45
SLASH == 47
SEMI == 59
LT == 60
EQ == 61
GT == 62
GRAVE == 96

Upper == 65..90
LowerCase == 97..122
Digit == 48..57
Letter == Upper \cup LowerCase
Alnum == Letter \cup Digit
HexDigit == Digit \cup (65..70) \cup (97..102)

\* white space that may separate things inside a tag
Ws == {TAB, LF, CR, SP}

\* characters of a tag name after its first, which is alphanumeric
NameChar == Alnum \cup {45, 46, 58, 95}       \* - . : _

\* Unicode White_Space
UniWs == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}

LowC(c) == IF c \in Upper THEN c + 32 ELSE c
Low(t) == [i \in DOMAIN t |-> LowC(t[i])]

\* length of the longest prefix of t, from position p on, made of characters in set
RECURSIVE RunLen(_, _, _)
RunLen(t, p, set) == IF p > Len(t) \/ t[p] \notin set THEN 0 ELSE 1 + RunLen(t, p + 1, set)

Trim(t, set) ==
  LET keep == {i \in DOMAIN t : t[i] \notin set}
  IN IF keep = {} THEN <<>>
     ELSE SubSeq(t, CHOOSE i \in keep : \A j \in keep : i <= j,
                    CHOOSE i \in keep : \A j \in keep : i >= j)

\* trim a long text without quadratic cost
TrimFast(t, set) ==
  LET lead == RunLen(t, 1, set)
      r == Reverse(t)
      tail == RunLen(r, 1, set)
  IN IF lead = Len(t) THEN <<>> ELSE SubSeq(t, lead + 1, Len(t) - tail)
=============================================================================

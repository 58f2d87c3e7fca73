------------------------------- MODULE Reader -------------------------------
(* XML read from a byte source that hands its bytes over piece by piece and  *)
(* may be interrupted, fail or end at any moment.  A byte automaton (UTF-8)  *)
(* is composed with the character automaton of Xml: the state after a piece  *)
(* is a function of the bytes delivered so far, never of the pieces.         *)
EXTENDS Xml

U0 == [need |-> 0, acc |-> 0, lo |-> 128, hi |-> 191]
R0 == [u |-> U0, m |-> M0]

Lead(b) == CASE b \in 194..223 -> [need |-> 1, acc |-> b - 192, lo |-> 128, hi |-> 191]
             [] b \in 224..239 -> [need |-> 2, acc |-> b - 224, lo |-> IF b = 224 THEN 160 ELSE 128, hi |-> IF b = 237 THEN 159 ELSE 191]
             [] b \in 240..244 -> [need |-> 3, acc |-> b - 240, lo |-> IF b = 240 THEN 144 ELSE 128, hi |-> IF b = 244 THEN 143 ELSE 191]
\* another encoding may be announced by the first two bytes
StepByte(r, b) ==
  IF r.m.st \in {"err", "open"} THEN r
  ELSE IF r.u.need = 0
  THEN CASE b < 128 -> [r EXCEPT !.m = Step(@, b)]
         [] b \in 194..244 -> [r EXCEPT !.u = Lead(b)]
         [] OTHER -> [r EXCEPT !.m = IF b >= 254 /\ r.m.st = "start" THEN Open(@) ELSE Err(@)]
  ELSE IF b \in r.u.lo..r.u.hi
  THEN LET v == r.u.acc * 64 + (b - 128)
       IN IF r.u.need = 1 THEN [u |-> U0, m |-> Step(r.m, v)]
          ELSE [r EXCEPT !.u = [need |-> r.u.need - 1, acc |-> v, lo |-> 128, hi |-> 191]]
  ELSE [r EXCEPT !.m = Err(@)]

FeedBytes(r, bs) == FoldLeft(StepByte, r, bs)
Bad == [verdict |-> "bad", free |-> FALSE, doc |-> <<>>]
\* the source ended
Ended(r) == IF r.u.need > 0 /\ r.m.st # "open" THEN Bad ELSE Outcome(r.m)
\* the source failed: nothing is known about what would have followed
Failed == Bad
ParseBytes(bs) == Ended(FeedBytes(R0, bs))

\* ---- an independent description of UTF-8, for checking the automaton ---------------------
Cont(bs, i) == i <= Len(bs) /\ bs[i] \in 128..191
Need(b) == IF b < 128 THEN 1 ELSE IF b \in 192..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..247 THEN 4 ELSE 0
CodeAt(bs, i, n) == CASE n = 1 -> bs[i]
                      [] n = 2 -> (bs[i] - 192) * 64 + (bs[i + 1] - 128)
                      [] n = 3 -> (bs[i] - 224) * 4096 + (bs[i + 1] - 128) * 64 + (bs[i + 2] - 128)
                      [] n = 4 -> (bs[i] - 240) * 262144 + (bs[i + 1] - 128) * 4096 + (bs[i + 2] - 128) * 64 + (bs[i + 3] - 128)
Least(n) == CASE n = 1 -> 0 [] n = 2 -> 128 [] n = 3 -> 2048 [] n = 4 -> 65536
RECURSIVE Decode(_, _)
\* <<valid, characters>>
Decode(bs, i) ==
  IF i > Len(bs) THEN <<TRUE, <<>>>>
  ELSE LET n == Need(bs[i])
       IN IF n = 0 \/ \E j \in 1..(n - 1) : ~Cont(bs, i + j) THEN <<FALSE, <<>>>>
          ELSE LET v == CodeAt(bs, i, n) rest == Decode(bs, i + n)
               IN IF v < Least(n) \/ v > 1114111 \/ v \in 55296..57343 THEN <<FALSE, <<>>>> ELSE <<rest[1], <<v>> \o rest[2]>>
\* UTF-8 of one character
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Encode(t) == FlattenSeq([i \in DOMAIN t |-> Utf8(t[i])])
=============================================================================

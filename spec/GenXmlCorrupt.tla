------------------------------ MODULE GenXmlCorrupt ------------------------------
(* Every single-point corruption of well-formed documents: the machine walks  *)
(* along a base document; at every position the environment may delete,       *)
(* replace or insert one character, drop the rest (truncation), duplicate or  *)
(* swap characters, or delete a whole token.  Each variant is one behaviour.  *)
EXTENDS Xml, CSV, Json

CONSTANTS BaseFile, OutFile, Inserts

Bases == ndJsonDeserialize(BaseFile)

VARIABLES b, p, m
vars == <<b, p, m>>

Text(j) == Bases[j].src
Rest(q) == SubSeq(Text(b), q, Len(Text(b)))

Init == b \in DOMAIN Bases /\ p = 0 /\ m = M0
Advance == p < Len(Text(b)) /\ p' = p + 1 /\ m' = Step(m, Text(b)[p + 1]) /\ b' = b
Next == Advance
Spec == Init /\ [][Next]_vars

Prefix == SubSeq(Text(b), 1, p)
InsertSet == {S(x)[1] : x \in Inserts}
NextGt == LET after == {q \in (p + 1)..Len(Text(b)) : Text(b)[q] = GT}
          IN IF after = {} THEN Len(Text(b)) ELSE CHOOSE q \in after : \A r \in after : q <= r

Tails ==
  {<<>>}                                                                        \* truncated
  \cup {<<c>> \o Rest(p + 1) : c \in InsertSet}                                 \* inserted
  \cup (IF p < Len(Text(b))
        THEN {Rest(p + 2)}                                                      \* deleted
             \cup {<<c>> \o Rest(p + 2) : c \in InsertSet}                      \* replaced
             \cup {<<Text(b)[p + 1]>> \o Rest(p + 1)}                           \* doubled
             \cup (IF p + 1 < Len(Text(b)) THEN {<<Text(b)[p + 2], Text(b)[p + 1]>> \o Rest(p + 3)} ELSE {})
             \cup (IF Text(b)[p + 1] = LT THEN {Rest(NextGt + 1)} ELSE {})      \* token deleted
        ELSE {})

Inv == MachineOK(m)
\* the base document itself is well-formed
BaseOK == p = Len(Text(b)) => Verdict(m) = "ok"

Emit == \A t \in Tails :
  CSVWrite("%1$s", <<ToJson([op |-> "xml", src |-> Prefix \o t, want |-> Outcome(Feed(m, t))])>>, OutFile)
=============================================================================

-------------------------------- MODULE Total --------------------------------
(* What every run of a parser, and every search of what it made, amounts to:   *)
(* the input is used up step by step, nodes are made no faster than input is   *)
(* read, the run ends in one of the ways that parser may end, and a walk over  *)
(* the document visits its nodes one after the other.  Nothing else happens:   *)
(* no run stops half-way, no walk fails to end.                                *)
EXTENDS Integers, FiniteSets

Parsers == {"strict", "lenient", "xml"}
\* the lenient parser has nothing to reject
Ends(p) == IF p = "lenient" THEN {"document"} ELSE {"document", "error"}
\* nodes that need no input: html, head, body
Given(p) == IF p = "lenient" THEN 3 ELSE 0

CONSTANT MaxInput
VARIABLES parser, phase, unread, made, unseen
vars == <<parser, phase, unread, made, unseen>>

Init == /\ parser \in Parsers /\ unread \in 0..MaxInput
        /\ phase = "parsing" /\ made = Given(parser) /\ unseen = 0
Read == /\ phase = "parsing" /\ unread > 0
        /\ \E n \in {0, 1} : unread' = unread - 1 /\ made' = made + n
        /\ UNCHANGED <<parser, phase, unseen>>
Reject == /\ phase = "parsing" /\ "error" \in Ends(parser)
          /\ phase' = "error" /\ UNCHANGED <<parser, unread, made, unseen>>
Return == /\ phase = "parsing" /\ unread = 0
          /\ phase' = "document" /\ UNCHANGED <<parser, unread, made, unseen>>
StartWalk == /\ phase = "document" /\ phase' = "walking" /\ unseen' = made /\ UNCHANGED <<parser, unread, made>>
Visit == /\ phase = "walking" /\ unseen > 0 /\ unseen' = unseen - 1 /\ UNCHANGED <<parser, phase, unread, made>>
EndWalk == /\ phase = "walking" /\ unseen = 0 /\ phase' = "walked" /\ UNCHANGED <<parser, unread, made, unseen>>
Next == Read \/ Reject \/ Return \/ StartWalk \/ Visit \/ EndWalk
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* a document is never returned while input is left, and is never larger than its input
WholeInput == phase \in {"document", "walking", "walked"} => unread = 0 /\ made <= MaxInput + Given(parser)
\* every run comes to an end, and so does every walk
Finishes == <>(phase \in {"error", "walked"})
Enabled == phase \in {"error", "walked"} \/ ENABLED Next
==============================================================================

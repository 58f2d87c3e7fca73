------------------------------ MODULE GenReader ------------------------------
(* Every way of delivering a document: all divisions into pieces, with        *)
(* interruptions, failures and the end anywhere.                              *)
EXTENDS Reader, Json, CSV

CONSTANTS Family, MaxPieces, OutFile

E2(t) == Encode(S(t))
Txt(cs) == E2("<a>") \o cs \o E2("</a>")
Docs ==
  CASE Family = "divide" -> {E2("<a/>"), E2("<a></a>"), E2("<a>x</a>"), E2("<a b=''/>"), E2("<a>&lt;</a>"), E2("<a><b/></a>"), E2("<a><b></a>"), E2("<a/><!---->"), E2("<?p?><a/>"),
                             E2("<a/>x"), E2("</a>"), E2("<a>"), <<>>, Txt(<<195, 169>>), Txt(<<226, 130, 172>>), Txt(<<240, 144, 141, 136>>), <<239, 187, 191>> \o E2("<a/>"),
                             <<60, 195, 169, 47, 62>>, Txt(<<195, 40>>), Txt(<<237, 160, 128>>), Txt(<<226, 130>>), Txt(<<255>>), E2("<a/>") \o <<195>>, E2("<a>]]></a>"), E2("<a>\r\n</a>")}
    [] Family = "interrupt" -> {E2("<a/>"), <<60, 195, 169, 47, 62>>, <<239, 187, 191>> \o E2("<a/>"), E2("<a>&"), E2("<b></b>")}
    [] Family = "fault" -> {E2("<?xml version='1.0'?><a b='c&amp;d'>x&#233;<!--c--><![CDATA[y]]><?p q?><e/></a> <!--z-->") , Txt(<<195, 169, 226, 130, 172, 240, 144, 141, 136>>),
                            E2("<!DOCTYPE a>\n<a>\n<b>t</b>\n</a>\n"), E2("<a><b></a></b>"), <<239, 187, 191>> \o E2("<a xmlns='u'/>"), <<>>}
    [] OTHER -> {}
Kinds1 == {"Other", "UnexpectedEof", "WouldBlock", "InvalidData", "TimedOut", "BrokenPipe", "ConnectionReset", "InvalidInput"}

VARIABLES rdoc, pos, rst, plan, fin
vars == <<rdoc, pos, rst, plan, fin>>

Rest == Len(rdoc) - pos
Piece(n) == /\ rst' = FeedBytes(rst, SubSeq(rdoc, pos + 1, pos + n)) /\ pos' = pos + n
            /\ plan' = Append(plan, <<"data", n>>) /\ UNCHANGED <<rdoc, fin>>
Interrupted == Len(plan) > 0 => plan[Len(plan)][1] # "intr"
Interrupt == Interrupted /\ plan' = Append(plan, <<"intr">>) /\ UNCHANGED <<rdoc, pos, rst, fin>>
End == /\ Rest = 0 /\ fin' = Ended(rst) /\ plan' = Append(plan, <<"end">>) /\ UNCHANGED <<rdoc, pos, rst>>
\* the source ends for good before all of the document was delivered
EndEarly == /\ Rest > 0 /\ fin' = Ended(rst) /\ plan' = Append(plan, <<"stop">>) /\ UNCHANGED <<rdoc, pos, rst>>
Fail(kind) == /\ fin' = Failed /\ plan' = Append(plan, <<"fail", kind>>) \o (IF Rest > 0 THEN <<<<"data", Rest>>>> ELSE <<>>)
              /\ UNCHANGED <<rdoc, pos, rst>>

None == [verdict |-> "none", free |-> FALSE, doc |-> <<>>]
Init == rdoc \in Docs /\ pos = 0 /\ rst = R0 /\ plan = <<>> /\ fin = None
\* in the family "fault" all pieces have the same size, chosen by the first
Sizes == CASE Family = "fault" -> (IF plan = <<>> THEN {1, 3, 7, Len(rdoc)} \cap 1..Rest ELSE {x \in {plan[1][2], Rest} : x <= plan[1][2]})
           [] OTHER -> 1..Rest
Next == /\ fin = None
        /\ \/ \E n \in Sizes : n > 0 /\ n <= Rest /\ (Len(plan) < MaxPieces \/ n = Rest) /\ Piece(n)
           \/ End
           \/ Family = "interrupt" /\ Interrupt
           \/ Family = "fault" /\ (EndEarly \/ \E kind \in Kinds1 : Fail(kind))
           \/ Family = "divide" /\ plan # <<>> /\ Len(plan) < 3 /\ (EndEarly \/ Fail("Other"))
Spec == Init /\ [][Next]_vars

\* the parse state is a function of the bytes delivered
OfBytes == rst = FeedBytes(R0, SubSeq(rdoc, 1, pos))
\* the byte automaton decodes UTF-8
DecodeAgrees == LET d == Decode(rdoc, 1) IN
                fin # None /\ plan[Len(plan)][1] = "end" => fin = IF d[1] THEN Parse(d[2]) ELSE IF rst.m.st = "open" THEN Outcome(rst.m) ELSE Bad
\* what failed is never a document, what was cut short is one only if the part is
NeverPartial == fin # None /\ fin.verdict = "ok" => /\ plan[Len(plan)][1] \in {"end", "stop"}
                                                   /\ fin = ParseBytes(SubSeq(rdoc, 1, pos))
Emit == fin # None => CSVWrite("%1$s", <<ToJson([op |-> "reader", bytes |-> rdoc, plan |-> plan, want |-> fin])>>, OutFile)
=============================================================================

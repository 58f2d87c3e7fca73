------------------------------- MODULE GenBytes -------------------------------
(* Documents holding every short byte string over the bytes that matter to     *)
(* UTF-8, in text, attribute values, comments and names.                       *)
EXTENDS Reader, Json, CSV

CONSTANTS MaxLen, OutFile
Alphabet == {65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 237, 238, 239, 240, 241, 243, 244, 245, 248, 254, 255}
Wraps == {<<"<a>", "</a>">>, <<"<a b='", "'/>">>, <<"<a><!--", "--></a>">>, <<"<a><![CDATA[", "]]></a>">>, <<"", "<a/>">>, <<"<a/>", "">>, <<"<a><?p ", "?></a>">>, <<"<x", "/>">>}

VARIABLES bstr
vars == <<bstr>>
Init == bstr = <<>>
\* only strings whose automaton is still alive are worth extending, except by one byte
Next == Len(bstr) < MaxLen /\ (Len(bstr) < 2 \/ FeedBytes(R0, Encode(S("<a>")) \o SubSeq(bstr, 1, Len(bstr) - 1)).m.st # "err") /\ \E b \in Alphabet : bstr' = Append(bstr, b)
Spec == Init /\ [][Next]_vars

Whole(w) == Encode(S(w[1])) \o bstr \o Encode(S(w[2]))
DecodeAgrees == \A w \in Wraps : LET bs == Whole(w) d == Decode(bs, 1) got == ParseBytes(bs)
                                 IN got.verdict # "open" => got = IF d[1] THEN Parse(d[2]) ELSE Bad
Emit == \A w \in Wraps : CSVWrite("%1$s", <<ToJson([op |-> "reader", bytes |-> Whole(w), plan |-> <<>>, want |-> ParseBytes(Whole(w))])>>, OutFile)
=============================================================================

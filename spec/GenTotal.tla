------------------------------ MODULE GenTotal ------------------------------
(* Inputs of every kind for every parser.  What they mean is decided by the     *)
(* other specifications; here each has to come to one of its permitted ends.    *)
EXTENDS Chars, Json, CSV

CONSTANTS Family, MaxLen, OutFile
P == INSTANCE Total WITH MaxInput <- 0, parser <- "", phase <- "", unread <- 0, made <- 0, unseen <- 0
Want == [p \in P!Parsers |-> P!Ends(p)]

\* characters whose lower case, width or meaning is unusual
Odd == {0, 8, 12, 13, 127, 160, 173, 304, 305, 383, 847, 8203, 8232, 8490, 8491, 9786, 64257, 65279, 65533, 65534, 65535, 65536, 119808, 128512, 917504, 1114111}
Chunk(s) == S(s)
Toks == {Chunk(x) : x \in {"<", ">", "</", "/>", "<a", "<a>", "</a>", "<br>", "<script>", "</script", "<style", "</style>", "=", "'", "\"", " ", "\n",
                           "<!--", "-->", "--", "<!", "<!doctype ", "<?", "?>", "<![CDATA[", "]]>", "&", "&#", "&#x", "amp;", "9999999999;", "x", "<svg>", "<table>", "<tr", "<select>", "<template>", "</p>", "<b>", "<p>"}}
        \cup {<<c>> : c \in Odd}
Frames == {<<"", "">>, <<"<", ">">>, <<"</", ">">>, <<"<a>", "</a>">>, <<"<a ", "></a>">>, <<"<a b=", "/>">>, <<"<a b='", "'/>">>, <<"<!--", "-->">>, <<"<!", ">">>, <<"<?", "?>">>,
           <<"<script>", "</script>">>, <<"<scr", "ipt></script>">>, <<"<script></scr", "ipt>">>, <<"<?xml ", "?><a/>">>, <<"<![CDATA[", "]]>">>, <<"<a><![CDATA[", "]]></a>">>, <<"&", ";">>, <<"&#", ";">>, <<"<a b='&", ";'/>">>,
           <<"<svg><", "/></svg>">>, <<"<table>", "</table>">>, <<"<template>", "</template>">>, <<"<title>", "</title>">>}
Digits1 == {"0", "00", "128", "159", "55295", "55296", "57343", "57344", "65535", "1114111", "1114112", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616",
            "99999999999999999999999999999999999999999", "x0", "xD7FF", "xD800", "xDFFF", "xE000", "x10FFFF", "x110000", "xFFFFFFFF", "x100000000", "xFFFFFFFFFFFFFFFF", "x10000000000000000", "X000000000000000000000041"}

VARIABLES tks
vars == <<tks>>
Init == tks = <<>>
Extend(c) == tks' = Append(tks, c)
Next == /\ Len(tks) < MaxLen
        /\ CASE Family = "tokens" -> \E c \in Toks : Extend(c)
             [] Family = "frames" -> \E c \in {<<x>> : x \in (0..255) \cup Odd \cup ({x * 211 : x \in 2..259} \ (55296..57343))} : Extend(c)
             [] Family = "numbers" -> \E c \in {S(x) : x \in Digits1} : Extend(c)
Spec == Init /\ [][Next]_vars

Body == FlattenSeq(tks)
Write(t) == CSVWrite("%1$s", <<ToJson([op |-> "total", src |-> t, want |-> Want])>>, OutFile)
Emit ==
  CASE Family = "tokens" -> Write(Body)
    [] Family = "frames" -> tks # <<>> => \A w \in Frames : Write(S(w[1]) \o Body \o S(w[2]))
    [] Family = "numbers" -> tks # <<>> => \A w \in {<<"&#", ";">>, <<"&#", "">>, <<"<a b='&#", ";'/>">>, <<"<a>&#", ";</a>">>, <<"<a>&#", "&lt;</a>">>} : Write(S(w[1]) \o Body \o S(w[2]))
=============================================================================

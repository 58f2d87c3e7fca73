-------------------------------- MODULE GenXml --------------------------------
(* Exhaustive exploration of the XML machine over chunk alphabets.            *)
EXTENDS Xml, CSV, Json

CONSTANTS Family, MaxLen, OutFile

Fam ==
  CASE Family = "tags" -> [pre |-> {""}, post |-> {"", "</a>"},
          chunks |-> {"<a>", "</a>", "<b>", "</b >", "<a/>", "x", " ", "<!--c-->", "<?p?>"}]
    [] Family = "chars" -> [pre |-> {"<r>", "<r"}, post |-> {"</r>", "/>", "></r>"},
          chunks |-> {"<", "/", ">", "a", "!", "-", " ", "?", "&", ";", "=", "'"}]
    [] Family = "top" -> [pre |-> {""}, post |-> {"", "/>"},
          chunks |-> {"<", "/", ">", "a", "!", "-", " ", "?"}]
    [] Family = "tokens" -> [pre |-> {"", "<r>"}, post |-> {"", "</r>", "</i></r>"},
          chunks |-> {"<!--", "-->", "<![CDATA[", "]]>", "<?p ", "?>", "<i b", "='", "'", "</i>", "t", "/>", "&lt;"}]
    [] Family = "attrs" -> [pre |-> {"<a", "<a b='1'"}, post |-> {"></a>", "/>", " />"},
          chunks |-> {" ", "\n", "b", "=", "'", "\"", "<", "&gt;", ">", "/", ":"}]
    [] Family = "attrlist" -> [pre |-> {"<a", "<r><c"}, post |-> {">", "/>", "></a>", "/></r>"},
          chunks |-> {" x='1'", " x=\"2\"", "\n\ty = 'a\"b>'", " p:x='3'", " xmlns:p='u'", " z='&amp;&#65;'", "w=''", " xml:lang='e'", " v"}]
    [] Family = "ns" -> [pre |-> {"<r xmlns:p='u'>", "<r>"}, post |-> {"</r>", "</p:a></r>", "</a></r>"},
          chunks |-> {"<p:a", "<a", " xmlns:p='v'", " xmlns='w'", " xmlns=''", " p:x='1'", " x='2'", ">", "/>", "</p:a>", "</a>", "<q:b xmlns:q='u'/>"}]
    [] Family = "content" -> [pre |-> {"<r>"}, post |-> {"</r>"},
          chunks |-> {"t", " ", "<![CDATA[", "]]>", "]", "<!--", "-->", "-", "&amp;", "<?p", "?>", "<b/>", "?"}]
    [] Family = "refs" -> [pre |-> {"<r>", "<r a='"}, post |-> {"</r>", "'/>", "&gt;</r>"},
          chunks |-> {"&", "#", "x", "X", "4", "1", "lt", "amp;", ";", "F", "0", " "}]
    [] Family = "prolog" -> [pre |-> {""}, post |-> {"", "<r/>"},
          chunks |-> {"<?xml version='1.0'?>", " ", "<!DOCTYPE r>", "<r/>", "<r>", "</r>", "<!--c-->", "<?p d?>", "x", "<![CDATA[c]]>", "&lt;", "<?xml?>", "<?XML v?>"}]
    [] Family = "decl" -> [pre |-> {"<?xml", " <?xml", "<?xml version='1.0'"}, post |-> {"?><r/>", " ?><r/>", "><r/>"},
          chunks |-> {" version=\"1.0\"", " version = '1.1'", " encoding='utf-8'", "encoding=\"UTF-8\"", " standalone='yes'", " standalone='on'", " ", "\n", " version='2.0'", "v"}]
    [] Family = "doctype" -> [pre |-> {"<!DOCTYPE", "<!DOCTYPE r ", "<?p?><!DOCTYP"}, post |-> {"><r/>", "><r>&u;</r>", "<r/>"},
          chunks |-> {" ", "r", "SYSTEM", "PUBLIC", " 'u'", " \"v\"", "'", "E", "[", "]", "x", ">"}]

VARIABLES src, m, n
vars == <<src, m, n>>
Init == \E p \in Fam.pre : src = S(p) /\ m = Feed(M0, S(p)) /\ n = 0
More(c) == /\ n < MaxLen /\ m.st \notin {"err", "open"}
           /\ src' = src \o S(c) /\ m' = Feed(m, S(c)) /\ n' = n + 1
Next == \E c \in Fam.chunks : More(c)
Spec == Init /\ [][Next]_vars

Inv == MachineOK(m)
ErrAbsorbing == m.st = "err" => \A p \in Fam.post : Verdict(Feed(m, S(p))) = "bad"
Emit == \A p \in Fam.post :
  CSVWrite("%1$s", <<ToJson([op |-> "xml", src |-> src \o S(p), want |-> Outcome(Feed(m, S(p)))])>>, OutFile)
=============================================================================

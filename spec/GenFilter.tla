------------------------------- MODULE GenFilter -------------------------------
(* All nodes of a set of labels against all filter trees over a set of atoms. *)
EXTENDS Filter, CSV, Json, TLC

CONSTANTS Depth, OutFile, SuiteFile

N(k, n, a) == [d |-> 0, k |-> k, n |-> S(n), a |-> {<<S(x[1]), S(x[2])>> : x \in a}, t |-> IF k \in {"text", "rich"} THEN S("a") ELSE <<>>]
AttrSets == {{}} \cup {{<<"x", v>>} : v \in {"1", "2", "a"}} \cup {{<<"y", v>>} : v \in {"1", "2"}}
            \cup {{<<"x", v>>, <<"y", w>>} : v \in {"1", "2"}, w \in {"1", "2"}} \cup {{<<"x", "2">>, <<"y", "1">>, <<"z", "3">>}, {<<"a", "x">>}}
Labels == {N(k, n, a) : k \in {"el"}, n \in {"a", "b"}, a \in AttrSets} \cup {N(k, "a", {<<"x", "1">>}) : k \in {"void", "raw", "rich"}}
          \cup {N(k, "", {}) : k \in {"text", "comment", "doctype", "cdata", "pi"}} \cup {N("tagonly", "a", {}), N("bag", "", {<<"x", "1">>, <<"y", "2">>})}

St(s) == P("str", S(s))
Atoms == {FTrue, FTag(St("a")), FTag(Yes), FTag(Re("is", S("b"))), FTag(No), FAttr(St("x"), St("1")), FAttr(Yes, St("2")), FAttr(P("user", S("x")), P("user", S("1"))),
          FAttr(St("y"), Yes), FAttr(St("x"), No), FAttr(Yes, Yes)}
Few == {FTrue, FTag(St("a")), FAttr(St("x"), St("1")), FAttr(Yes, St("2"))}
Level1 == Atoms \cup {FAnd(f, g) : f \in Atoms, g \in Atoms} \cup {FOr(f, g) : f \in Atoms, g \in Atoms}
Small == Few \cup {FAnd(f, g) : f \in Few, g \in Few} \cup {FOr(f, g) : f \in Few, g \in Few}
Suite == SetToSeq(IF Depth = 1 THEN Level1 ELSE Level1 \cup {FAnd(f, g) : f \in Small, g \in Small} \cup {FOr(f, g) : f \in Small, g \in Small})
ASSUME CSVWrite("%1$s", <<ToJson(Suite)>>, SuiteFile)

VARIABLES doc
vars == <<doc>>
Init == doc \in {<<x>> : x \in Labels}
Next == UNCHANGED doc
Spec == Init /\ [][Next]_vars

Run == [j \in DOMAIN Suite |-> Accepted(doc, Suite[j])]
Never(f) == ~Accepts(f, doc[1])
\* truth, conjunction and disjunction behave as such; nodes without name and attributes satisfy no atom
Logic == /\ \A f \in Atoms : /\ Accepts(FAnd(f, FTrue), doc[1]) = Accepts(f, doc[1])
                             /\ Accepts(FOr(f, FTrue), doc[1])
                             /\ Accepts(FAnd(f, f), doc[1]) = Accepts(FOr(f, f), doc[1])
         /\ \A f \in Atoms, g \in Atoms : Accepts(FAnd(f, g), doc[1]) = Accepts(FAnd(g, f), doc[1])
BareNodes == (~HasName(doc[1]) /\ ~HasAttrs(doc[1])) => \A f \in Atoms \ {FTrue} : Never(f)
\* pairing: name and value of one and the same attribute
Pairing == \A f \in Atoms : (f.o = "attr" /\ Accepts(f, doc[1])) => \E q \in doc[1].a : PMatch(f.p, q[1]) /\ PMatch(f.v, q[2])
Emit == CSVWrite("%1$s", <<ToJson([op |-> "filters", doc |-> doc, want |-> [accepted |-> Run]])>>, OutFile)
=============================================================================

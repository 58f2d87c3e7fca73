------------------------------- MODULE Features -------------------------------
(* The optional features of the library: what asking for some of them enables,  *)
(* and what a build with them offers.                                           *)
EXTENDS Integers, Sequences, FiniteSets

Documented == {"everything", "regex", "html", "html-lenient", "html-strict", "xml"}   \* "everything": the default
Implies(f) == CASE f = "everything" -> {"regex", "html", "xml"}
                [] f = "html" -> {"html-lenient", "html-strict"}
                [] OTHER -> {}
RECURSIVE Closure(_)
Closure(fs) == LET more == fs \cup UNION {Implies(f) : f \in fs} IN IF more = fs THEN fs ELSE Closure(more)
Basic == {"regex", "html-lenient", "html-strict", "xml"}
Enabled(asked) == Closure(asked) \cap Basic

\* the operations of the library and what each of them needs; searching, traversing and
\* building documents with a user's own parser need nothing
Operations == {"strict", "lenient", "mirror", "xml", "reader", "query", "travel", "roam", "access", "filters", "session", "threads", "parser", "formats", "constructors", "total"}
NeededBy(op) ==
  CASE op = "strict" -> {"html-strict"}
    [] op \in {"lenient", "mirror"} -> {"html-lenient"}
    [] op \in {"xml", "reader"} -> {"xml"}
    [] OTHER -> {}
Offers(en, op, extra) == NeededBy(op) \cup extra \subseteq en

\* the kinds of document a search can be tried on
Representations(en) == {"user-defined", "user-defined, shared"} \cup (IF en \cap {"html-strict", "html-lenient"} # {} THEN {"HTMLNode"} ELSE {}) \cup (IF "xml" \in en THEN {"XMLNode"} ELSE {})
\* the ways one tree can be supplied, and the parsers a build has, by the name a document is labelled with
Parsers == [s \in {"strict", "lenient", "xml"} |-> CASE s = "strict" -> "html-strict" [] s = "lenient" -> "html-lenient" [] s = "xml" -> "xml"]
Built(en) == {p \in DOMAIN Parsers : Parsers[p] \in en}
Written(en) == {"user-defined"} \cup (IF "html-strict" \in en THEN {"html_strict"} ELSE {}) \cup (IF "html-lenient" \in en THEN {"html"} ELSE {}) \cup (IF "xml" \in en THEN {"xml"} ELSE {})
===============================================================================

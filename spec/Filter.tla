-------------------------------- MODULE Filter --------------------------------
(* The public filter combinators, standing alone: trees of and / or / true    *)
(* over tag and attribute filters.                                            *)
EXTENDS Query

FTrue == [o |-> "true"]
FTag(p) == [o |-> "tag", p |-> p]
FAttr(p, v) == [o |-> "attr", p |-> p, v |-> v]
FAnd(l, r) == [o |-> "and", l |-> l, r |-> r]
FOr(l, r) == [o |-> "or", l |-> l, r |-> r]

RECURSIVE Accepts(_, _)
Accepts(f, x) ==
  CASE f.o = "true" -> TRUE
    [] f.o = "tag" -> TagOK(x, f.p)
    [] f.o = "attr" -> AttrOK(x, f.p, f.v)
    [] f.o = "and" -> Accepts(f.l, x) /\ Accepts(f.r, x)
    [] f.o = "or" -> Accepts(f.l, x) \/ Accepts(f.r, x)

Accepted(doc, f) == SelectSeq([i \in DOMAIN doc |-> i], LAMBDA i : Accepts(f, doc[i]))
=============================================================================

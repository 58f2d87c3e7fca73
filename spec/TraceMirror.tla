------------------------------ MODULE TraceMirror ------------------------------
(* Recorded: for any text whatsoever, the tree the HTML engine built and the      *)
(* document the lenient parser returned.  The document mirrors the tree.          *)
EXTENDS Chars, FiniteSets, Json

CONSTANTS TraceFile, Lanes

Trace == ndJsonDeserialize(TraceFile)
Names == {S("area"), S("base"), S("br"), S("col"), S("embed"), S("hr"), S("img"), S("input"), S("link"), S("meta"), S("source"), S("track"), S("wbr")}

\* template contents and processing instructions are left out
RECURSIVE Kept(_, _, _)
Kept(tree, i, cut) ==   \* cut: depth of the fragment being skipped, or -1
  IF i > Len(tree) THEN <<>>
  ELSE LET x == tree[i]
           skip == cut >= 0 /\ x.d > cut
       IN IF skip THEN Kept(tree, i + 1, cut)
          ELSE IF x.k = "fragment" THEN Kept(tree, i + 1, x.d)
          ELSE IF x.k = "pi" THEN Kept(tree, i + 1, -1) ELSE <<i>> \o Kept(tree, i + 1, -1)
HasKids(tree, kept, j) == j < Len(kept) /\ tree[kept[j + 1]].d > tree[kept[j]].d

SameAttrs(x, g) ==
  LET pairs == {<<x.a[j][2], x.a[j][3]>> : j \in DOMAIN x.a}
      locals == {p[1] : p \in pairs}
      got == {<<g.a[j][1], g.a[j][2]>> : j \in DOMAIN g.a}
  IN /\ got \subseteq pairs /\ {p[1] : p \in got} = locals /\ Len(g.a) = Cardinality(locals)
     \* two attributes of one local name: a known finding, either may be reported
     /\ Len(x.a) = Cardinality(locals) => got = pairs
SameNode(tree, kept, j, g) ==
  LET x == tree[kept[j]]
      kids == HasKids(tree, kept, j)
  IN /\ g.d = x.d /\ g.n = x.n /\ g.t = x.t /\ SameAttrs(x, g)
     /\ IF x.k # "el" THEN g.k = x.k
        ELSE IF kids \/ x.n \notin Names THEN g.k = "el"
        ELSE IF x.ns = "h" THEN g.k = "void" ELSE g.k \in {"el", "void"}
OK(r) == LET kept == Kept(r.got.tree, 1, -1)
         IN /\ "doc" \in DOMAIN r.got /\ Len(kept) = Len(r.got.doc)
            /\ \A j \in DOMAIN kept : SameNode(r.got.tree, kept, j, r.got.doc[j])

VARIABLE line
Init == line \in 1..(IF Lanes < Len(Trace) THEN Lanes ELSE Len(Trace))
Next == line + Lanes <= Len(Trace) /\ line' = line + Lanes
Spec == Init /\ [][Next]_line
Conforms == OK(Trace[line])
=============================================================================

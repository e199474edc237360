---------------------------- MODULE PkgScanTrace -----------------------------
EXTENDS PkgScan, TraceLoop

Set(q) == {q[i] : i \in 1..Len(q)}

ScanAccepts(c) ==
    LET ids == {c.nodes[i].id : i \in 1..Len(c.nodes)}
        N(p) == CHOOSE i \in 1..Len(c.nodes) : c.nodes[i].id = p
        imports == [p \in ids |-> Set(c.nodes[N(p)].imports)]
        std == {p \in ids : c.nodes[N(p)].std}
        roots == Set(c.roots)
        reach == Reachable(imports, std, roots)
        bad == UNION {Set(c.nodes[N(p)].errs) \cup ({c.nodes[N(p)].fail} \ {""}) : p \in reach}
    IN /\ RightVisits(imports, std, roots, c.out.visits)
       /\ c.out.err = (bad # {})
       /\ Set(c.out.named) = bad
=============================================================================

----------------------------- MODULE MergeTrace ------------------------------
\* Recorded merges, see TraceLoop.
EXTENDS Merge, TraceLoop

MergeAccepts(c) ==
    LET want == MergeDocs(c.pol, c.d, c.s) IN
    \A i \in 1..Len(c.out.outs) :
        LET r == c.out.outs[i] IN
        /\ r.src = c.s
        /\ IF IsFail(want) THEN "err" \in DOMAIN r
           ELSE "ok" \in DOMAIN r /\ r.ok = want.ok
=============================================================================

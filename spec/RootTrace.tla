------------------------------ MODULE RootTrace ------------------------------
\* Recorded merges of root documents, and applications of default operations.
EXTENDS Root, DefOps, TraceLoop

Outcome(want, r) == IF IsFail(want) THEN "err" \in DOMAIN r ELSE "ok" \in DOMAIN r /\ r.ok = want.ok
RootAccepts(c) == \A i \in 1..Len(c.out.outs) : Outcome(RootMerge(c.doc, c.cfg), c.out.outs[i])

\* runs differ in the order of everything that has none, so all must be the same
OpsAccepts(c) == /\ Len(c.out.outs) = 1
                 /\ LET r == c.out.outs[1] IN "ok" \in DOMAIN r /\ IsResult(c.doc, c.ops, r.ok)
RootOpsAccepts(c) == CASE c.m = "root" -> RootAccepts(c) [] c.m = "defops" -> OpsAccepts(c)
=============================================================================

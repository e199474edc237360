----------------------------- MODULE RouteTrace ------------------------------
\* Recorded matches.
EXTENDS Route, TraceLoop

Answer(p, m, x) == IF Match(p, m, x) THEN "yes" ELSE "no"

MatchAccepts(c) ==
    LET items == Items(RouteOf(c.pat))
        mok == MethodOK(c.pat, c.method)
    IN \A i \in 1..Len(c.paths) :
         c.out.ok[i] = (IF mok /\ MatchItems(items, c.paths[i]) THEN "yes" ELSE "no")

\* what a pattern which cannot be compiled answers is not specified
HistoryAccepts(c) ==
    \A t \in 1..Len(c.threads) : \A i \in 1..Len(c.threads[t]) :
        LET k == c.threads[t][i] IN k.pat = "BAD" \/ c.out.ok[t][i] = Answer(k.pat, k.method, k.path)

RouteAccepts(c) == CASE c.m = "route" -> MatchAccepts(c) [] c.m = "routes" -> HistoryAccepts(c)
=============================================================================

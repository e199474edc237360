----------------------------- MODULE TypesTrace ------------------------------
\* Recorded schemas of types, and tags.
EXTENDS Types, TraceLoop

\* c.at: what is asked for, as [p, toks] of each pointer
SchemasAccept(c) ==
    /\ "res" \in DOMAIN c.out
    /\ \A i \in 1..Len(c.at) :
         LET want == Resolved(c.decls, c.at[i].p, c.at[i].toks)
             got == c.out.res[i]
         IN IF IsFail(want) THEN "err" \in DOMAIN got
            ELSE "ok" \in DOMAIN got /\ Fits(c.decls, want.ok, got.ok)
    /\ \A i \in 1..Len(c.out.more) :
         LET got == c.out.more[i]
             p == ParsePtr(got.ref)
             want == Resolved(c.decls, p.ok.pkg, p.ok.toks)
         IN /\ ~IsFail(p) /\ p.ok.scheme = "go" /\ ~IsFail(TypeAt(c.decls, p.ok.pkg, p.ok.toks))
            /\ IF IsFail(want) THEN "err" \in DOMAIN got
               ELSE "ok" \in DOMAIN got /\ Fits(c.decls, want.ok, got.ok)

TagAccepts(c) ==
    LET want == ParseTag(c.f) IN
    IF IsFail(want) THEN "err" \in DOMAIN c.out ELSE "ok" \in DOMAIN c.out /\ c.out.ok = want.ok

TypesAccept(c) == CASE c.m = "types" -> SchemasAccept(c) [] c.m = "tag" -> TagAccepts(c)
=============================================================================

---------------------------- MODULE DotPathTrace -----------------------------
\* Recorded uses of dot paths and of key extraction.
EXTENDS Values, TraceLoop

\* reading, and setting a mark at, the dot path of c.keys
DotPathAccepts(c) ==
    LET r == c.out
        set == Set(c.d, c.keys, c.mark)
    IN /\ r.exists = Exists(c.d, c.keys)
       /\ Exists(c.d, c.keys) => r.got = At(c.d, c.keys)
       /\ IF IsFail(set) THEN "err" \in DOMAIN r
          ELSE "ok" \in DOMAIN r /\ r.ok = set.ok /\ r.back = c.mark

\* different sequences of keys have different paths
DistinctAccepts(c) == Cardinality(Elems(c.out.ok)) = Cardinality(Elems(c.all))

\* all occurrences of a key, each by what its path reads and writes
ExtractAccepts(c) ==
    LET occ == Occurrences(c.d, c.key)
        r == c.out.ok
        Expected(p) == [val |-> At(c.d, p), got |-> At(c.d, p), exists |-> TRUE,
                        doc |-> Set(c.d, p, c.mark).ok]
    IN /\ "ok" \in DOMAIN c.out
       /\ Len(r) = Cardinality(occ)
       /\ \A p \in occ : \E i \in 1..Len(r) :
            /\ r[i].val = At(c.d, p) /\ r[i].got = At(c.d, p) /\ r[i].exists
            /\ r[i].doc = Set(c.d, p, c.mark).ok

Accept19(c) == CASE c.m = "dotpath" -> DotPathAccepts(c)
                 [] c.m = "dotpaths" -> DistinctAccepts(c)
                 [] c.m = "extract" -> ExtractAccepts(c)
=============================================================================

---------------------------- MODULE PointerTrace -----------------------------
\* Recorded uses of pointers.
EXTENDS Pointer, TraceLoop

Same(r, p) == "err" \notin DOMAIN r /\ r.scheme = p.scheme /\ r.pkg = p.pkg /\ r.toks = p.toks

\* a pointer reads back as itself, whatever way it is written
TextAccepts(c) ==
    LET p == Pointer(c.scheme, c.pkg, c.toks)
        r == c.out
    IN /\ Same(r.back, p) /\ r.back.text = r.text
       /\ Same(r.clone, p) /\ r.clonetext = r.text
       /\ r.frag = c.toks
       /\ r.json = r.text /\ Same(r.unjson, p)
       /\ r.schema = r.text

\* a text is read as the tokens it spells
ParseAccepts(c) ==
    LET want == ParsePtr(c.text) IN
    IF IsFail(want) THEN "err" \in DOMAIN c.out ELSE Same(c.out, want.ok)

DistinctAccepts(c) == Cardinality(Elems(c.out.ok)) = Cardinality(Elems(c.all))

RECURSIVE Follow(_, _, _)
Follow(st, ops, recs) ==
    IF ops = <<>> THEN TRUE
    ELSE LET want == Derive(st, ops[1])
             next == IF IsFail(want) THEN st ELSE [st EXCEPT ![ops[1].h] = want.ok]
             got == recs[1]
         IN /\ got.err = IsFail(want)
            /\ \A h \in DOMAIN st : Same(got.st[h], next[h])
            /\ \A g, h \in DOMAIN st : (got.st[g].text = got.st[h].text) = (next[g] = next[h])
            /\ Follow(next, Tail(ops), Tail(recs))
HistAccepts(c) == Follow([h \in Elems(c.handles) |-> NoPtr], c.ops, c.out.ok)

Accept18(c) == CASE c.m = "ptr" -> TextAccepts(c)
                 [] c.m = "ptrparse" -> ParseAccepts(c)
                 [] c.m = "ptrtexts" -> DistinctAccepts(c)
                 [] c.m = "ptrhist" -> HistAccepts(c)
=============================================================================

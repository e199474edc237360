---------------------------- MODULE ResolveTrace -----------------------------
\* Recorded results of resolving. c.env: sequence of [ptr, v], c.exports: of [name, ptr].
EXTENDS Resolve, TraceLoop

Fn(q, F(_)) == [t \in {q[i].ptr : i \in 1..Len(q)} |-> F(CHOOSE x \in Elems(q) : x.ptr = t)]
Entry(x) == IF "v" \in DOMAIN x THEN [ok |-> x.v] ELSE Fail
EnvOfCase(c) == IF Len(c.env) = 0 THEN [t \in {} |-> Fail] ELSE Fn(c.env, Entry)
ExportsOfCase(c) == IF Len(c.exports) = 0 THEN [t \in {} |-> ""] ELSE Fn(c.exports, LAMBDA x : x.name)

OneAccepts(c, r) ==
    LET want == Resolve(EnvOfCase(c), ExportsOfCase(c), c.doc) IN
    /\ r.input = c.doc
    /\ IF IsFail(want) THEN "err" \in DOMAIN r
       ELSE "ok" \in DOMAIN r /\ r.ok = want.ok
\* runs differ in the order of everything that has none
ResolveAccepts(c) == \A i \in 1..Len(c.out.outs) : OneAccepts(c, c.out.outs[i])
=============================================================================

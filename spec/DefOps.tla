------------------------------- MODULE DefOps --------------------------------
(***************************************************************************)
(* Default operations: each one whose pattern matches an operation gives it     *)
(* the fields it lacks. ops is a sequence of [pat, op].                        *)
(***************************************************************************)
EXTENDS Merge, Route

OpMethods == {"get", "put", "post", "delete", "options", "head", "patch", "trace"}

IsOp(path, key) == ~HasPrefix(path, "x-") /\ Lower(key) \in OpMethods
\* the operations of a document: paths of length three
Operations(doc) ==
    IF ~HasKey(doc, "paths") THEN {}
    ELSE LET ps == doc.o["paths"] IN
         {q \in UNION {{<<"paths", p, k>> : k \in Keys(ps.o[p])} : p \in Keys(ps)} : IsOp(q[2], q[3])}

Matches(pat, q) == Match(pat, q[3], q[2])

\* one default applied to the whole document
ApplyOne(doc, pat, op) ==
    LET S == {q \in Operations(doc) : Matches(pat, q)}
        New(p, k, v) == IF <<"paths", p, k>> \in S /\ ~(IsNull(v) /\ op = EmptyObj) THEN MergeDocs("default", v, op).ok ELSE v
        ps == doc.o["paths"]
    IN IF S = {} THEN doc
       ELSE Put(doc, "paths", Obj([p \in Keys(ps) |->
                IF IsObj(ps.o[p]) THEN Obj([k \in Keys(ps.o[p]) |-> New(p, k, ps.o[p].o[k])]) ELSE ps.o[p]]))

RECURSIVE ApplyAll(_, _)
ApplyAll(doc, ops) ==
    IF ops = <<>> THEN doc ELSE ApplyAll(ApplyOne(doc, ops[1].pat, ops[1].op), Tail(ops))

\* the order of patterns is not specified, but there is one
Orders(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : f[i] = f[j] => i = j}
Results(doc, ops) == {ApplyAll(doc, [i \in 1..Len(ops) |-> ops[f[i]]]) : f \in Orders(Len(ops))}
IsResult(doc, ops, r) == r = ApplyAll(doc, ops) \/ r \in Results(doc, ops)

(***************************************************************************)
(* What is demanded of the result r of applying ops to doc.                    *)
(***************************************************************************)
RECURSIVE Extends(_, _)
\* a has all that b has, unchanged
Extends(a, b) == IF IsObj(a) /\ IsObj(b) THEN Keys(b) \subseteq Keys(a) /\ \A k \in Keys(b) : Extends(a.o[k], b.o[k])
                 ELSE a = b
OnlyMatched(doc, ops, r) ==
    /\ Keys(r) = Keys(doc)
    /\ \A k \in Keys(doc) \ {"paths"} : r.o[k] = doc.o[k]
    /\ HasKey(doc, "paths") =>
        /\ Keys(r.o["paths"]) = Keys(doc.o["paths"])
        /\ \A p \in Keys(doc.o["paths"]) :
             LET a == r.o["paths"].o[p]
                 b == doc.o["paths"].o[p]
             IN /\ Keys(a) = Keys(b)
                /\ \A k \in Keys(b) :
                     IF IsOp(p, k) /\ \E i \in 1..Len(ops) : Matches(ops[i].pat, <<"paths", p, k>>)
                     THEN /\ Extends(a.o[k], b.o[k])
                          /\ \A i \in 1..Len(ops) : Matches(ops[i].pat, <<"paths", p, k>>) =>
                                Keys(ops[i].op) \subseteq Keys(a.o[k])
                     ELSE a.o[k] = b.o[k]
=============================================================================

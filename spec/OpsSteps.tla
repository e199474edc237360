------------------------------- MODULE OpsSteps ------------------------------
(***************************************************************************)
(* Default operations as the code applies them: one pattern after another, each *)
(* to the operations it matches in any order (of the hash maps). The result is  *)
(* that of module DefOps for some order of the patterns, and at every moment    *)
(* operations have all they had.                                              *)
(***************************************************************************)
EXTENDS DefOps

CONSTANTS Docs, OpLists
VARIABLES doc0, ops, doc, i, todo
vars == <<doc0, ops, doc, i, todo>>

O(f) == Obj(f)
Op1 == EmptyObj
Op2 == O([summary |-> Str("1")])
Op3 == O([responses |-> O([x |-> O([description |-> Str("1")])]), tags |-> Arr(<<Str("1")>>)])
OpVals == {Op1, Op2, Op3, Null}
Items1 == {O([get |-> v]) : v \in OpVals} \cup {O([get |-> v, parameters |-> Arr(<<>>), POST |-> Op2]) : v \in {Op1, Op3}}
SomeDocs == {O([openapi |-> Str("3"), paths |-> O(("/a" :> x) @@ ("/a/b" :> y) @@ ("x-z" :> O([get |-> Op1])))]) :
              x \in Items1, y \in Items1} \cup {O([openapi |-> Str("3")]), O([paths |-> Null])}
D(t) == O([description |-> Str(t)])
Defaults == {O([summary |-> Str("2")]),
             O([responses |-> O([x |-> D("2"), y |-> D("2")]), tags |-> Arr(<<Str("2"), Str("3")>>)]),
             O([externalDocs |-> D("3"), responses |-> O([x |-> O([headers |-> O([h |-> O([explode |-> True])])])])])}
Pats == {"*", "get:/a", "post:*", "/{id}/b"}
SomeOps == {<<>>} \cup {<<[pat |-> p, op |-> d]>> : p \in Pats, d \in Defaults}
           \cup {<<[pat |-> "*", op |-> d], [pat |-> p, op |-> e]>> : p \in {"get:/a", "/{id}/b"}, d \in Defaults, e \in Defaults}

Matched(n) == IF n > Len(ops) THEN {} ELSE {q \in Operations(doc0) : Matches(ops[n].pat, q)}
Init == doc0 \in Docs /\ ops \in OpLists /\ doc = doc0 /\ i = 1 /\ todo = Matched(1)
Done == i > Len(ops)
Apply(q) == /\ doc' = Set(doc, q, MergeDocs("default", At(doc, q), ops[i].op).ok).ok
            /\ todo' = todo \ {q} /\ i' = i
Turn == todo = {} /\ i' = i + 1 /\ todo' = Matched(i + 1) /\ doc' = doc
Next == ~Done /\ (Turn \/ \E q \in todo : Apply(q)) /\ UNCHANGED <<doc0, ops>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == Done => doc = ApplyAll(doc0, ops)
NoNull(d) == LET RECURSIVE F(_)
                 F(v) == IF IsObj(v) THEN Obj([k \in Keys(v) |-> IF IsNull(v.o[k]) THEN EmptyObj ELSE F(v.o[k])]) ELSE v
             IN F(d)
Sound == Done => OnlyMatched(NoNull(doc0), ops, NoNull(doc))
Grows == \A q \in Operations(doc0) : Extends(At(NoNull(doc), q), At(NoNull(doc0), q))
Ends == <>Done
=============================================================================

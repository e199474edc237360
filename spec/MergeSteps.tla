----------------------------- MODULE MergeSteps ------------------------------
(***************************************************************************)
(* Merging as the code does it: in place, key by key, in any order of the    *)
(* keys of each (hash) map, descending into common objects. Checked: however *)
(* the keys are ordered, the merge ends, and in the result of module Merge;  *)
(* destination keys which the source lacks are never touched, the source is  *)
(* never changed.                                                          *)
(***************************************************************************)
EXTENDS Merge, SmallDocs

CONSTANTS DestDocs, SrcDocs, Pols

VARIABLES pol, d0, src, dest, stack, failed
vars == <<pol, d0, src, dest, stack, failed>>

\* a frame: an object of the source being merged, and its keys still to do
Frame(p, ks) == [path |-> p, todo |-> ks]

Init == /\ pol \in Pols
        /\ d0 \in DestDocs
        /\ src \in SrcDocs
        /\ dest = d0
        /\ stack = <<Frame(<<>>, Keys(src))>>
        /\ failed = FALSE

Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Done == failed \/ stack = <<>>

\* the next key k of the object on top of the stack
Step(k) ==
    LET p == Append(Top.path, k)
        v == At(src, p)
        rest == Append(Pop, Frame(Top.path, Top.todo \ {k}))
    IN
    IF ~Exists(dest, p) THEN
        /\ dest' = Set(dest, p, v).ok
        /\ stack' = rest
        /\ UNCHANGED failed
    ELSE IF IsObj(v) /\ IsObj(At(dest, p)) THEN
        /\ stack' = Append(rest, Frame(p, Keys(v)))
        /\ UNCHANGED <<dest, failed>>
    ELSE IF pol = "strict" \/ (pol = "same" /\ At(dest, p) # v) THEN
        /\ failed' = TRUE
        /\ UNCHANGED <<dest, stack>>
    ELSE
        /\ dest' = IF pol = "override" THEN Set(dest, p, v).ok ELSE dest
        /\ stack' = rest
        /\ UNCHANGED failed

Return == Top.todo = {} /\ stack' = Pop /\ UNCHANGED <<dest, failed>>

Next == /\ ~Done
        /\ \/ Return
           \/ \E k \in Top.todo : Step(k)
        /\ UNCHANGED <<pol, d0, src>>

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Result == IF failed THEN Fail ELSE [ok |-> dest]
Confluent == Done => Result = MergeDocs(pol, d0, src)
\* at any moment, what only the destination has is there, unchanged
RECURSIVE OnlyIn(_, _)
OnlyIn(d, s) == UNION {
    IF ~HasKey(s, k) THEN {<<k>>}
    ELSE IF IsObj(d.o[k]) /\ IsObj(s.o[k]) THEN {<<k>> \o p : p \in OnlyIn(d.o[k], s.o[k])}
    ELSE {} : k \in Keys(d)}
Kept == \A p \in OnlyIn(d0, src) : Exists(dest, p) /\ At(dest, p) = At(d0, p)
Ends == <>Done
=============================================================================

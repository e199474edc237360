-------------------------------- MODULE Merge --------------------------------
(***************************************************************************)
(* Merging of documents: what a merge results in.                            *)
(* Objects are merged recursively; a policy decides every other collision.   *)
(***************************************************************************)
EXTENDS Values

Policies == {"strict", "default", "override"}

\* Do two objects collide, that is, have they a common key with values which
\* are not both objects? Policy "same" lets both sides state the same value.
RECURSIVE Collide(_, _, _)
Collide(pol, d, s) ==
    \E k \in Keys(d) \cap Keys(s) :
        IF IsObj(d.o[k]) /\ IsObj(s.o[k]) THEN Collide(pol, d.o[k], s.o[k])
        ELSE ~(pol = "same" /\ d.o[k] = s.o[k])

RECURSIVE MergeObj(_, _, _)
MergeObj(pol, d, s) ==
    Obj([k \in Keys(d) \cup Keys(s) |->
        IF k \notin Keys(s) THEN d.o[k]
        ELSE IF k \notin Keys(d) THEN s.o[k]
        ELSE IF IsObj(d.o[k]) /\ IsObj(s.o[k]) THEN MergeObj(pol, d.o[k], s.o[k])
        ELSE IF pol = "override" THEN s.o[k] ELSE d.o[k]])

\* merge of object s into object d
MergeDocs(pol, d, s) ==
    IF pol \in {"strict", "same"} /\ Collide(pol, d, s) THEN Fail
    ELSE [ok |-> MergeObj(pol, d, s)]

\* merge of a sequence of documents, one after another, into the empty one
RECURSIVE MergeSeq(_, _, _)
MergeSeq(pol, d, q) ==
    IF q = <<>> THEN [ok |-> d]
    ELSE LET r == MergeDocs(pol, d, q[1])
         IN IF IsFail(r) THEN r ELSE MergeSeq(pol, r.ok, Tail(q))
MergeAll(pol, q) == MergeSeq(pol, EmptyObj, q)
=============================================================================

------------------------------ MODULE Fragments ------------------------------
(***************************************************************************)
(* Fragments as slices of shared arrays, the way the code holds them, refine *)
(* fragments as values: deriving one never changes another. Capped says that  *)
(* extending a slice never writes behind its end; without it (constant        *)
(* FALSE) the refinement does not hold.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Handles, Toks, MaxLen, MaxOps, Capped
VARIABLES arrays, slice, value, n

vars == <<arrays, slice, value, n>>

\* arrays: sequence of sequences of the same length as their capacity
Spare == 2
New(q) == q \o [i \in 1..Spare |-> "-"]
View(h) == SubSeq(arrays[slice[h].a], 1, slice[h].len)

Init == /\ arrays = <<New(<<>>)>>
        /\ slice = [h \in Handles |-> [a |-> 1, len |-> 0]]
        /\ value = [h \in Handles |-> <<>>]
        /\ n = 0

Fresh(h, q) == /\ arrays' = Append(arrays, New(q))
               /\ slice' = [slice EXCEPT ![h] = [a |-> Len(arrays) + 1, len |-> Len(q)]]

Extend(h, f, t) ==
    /\ value' = [value EXCEPT ![h] = Append(value[f], t)]
    /\ LET s == slice[f] IN
       IF ~Capped /\ s.len < Len(arrays[s.a])
       THEN /\ arrays' = [arrays EXCEPT ![s.a][s.len + 1] = t]
            /\ slice' = [slice EXCEPT ![h] = [s EXCEPT !.len = s.len + 1]]
       ELSE Fresh(h, Append(View(f), t))
Share(h, f) == slice' = [slice EXCEPT ![h] = slice[f]] /\ value' = [value EXCEPT ![h] = value[f]] /\ UNCHANGED arrays
Clone(h, f) == Fresh(h, View(f)) /\ value' = [value EXCEPT ![h] = value[f]]
Replace(h, f, i, t) == /\ i <= slice[f].len
                       /\ Fresh(h, [View(f) EXCEPT ![i] = t])
                       /\ value' = [value EXCEPT ![h] = [value[f] EXCEPT ![i] = t]]

Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E h, f \in Handles :
             \/ \E t \in Toks : slice[f].len < MaxLen /\ Extend(h, f, t)
             \/ Share(h, f)
             \/ Clone(h, f)
             \/ \E t \in Toks, i \in 1..MaxLen : Replace(h, f, i, t)
Spec == Init /\ [][Next]_vars

Refines == \A h \in Handles : View(h) = value[h]
Isolated == [][\E h \in Handles : \A g \in Handles \ {h} : value'[g] = value[g]]_vars
=============================================================================

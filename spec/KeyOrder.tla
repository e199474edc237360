------------------------------- MODULE KeyOrder -------------------------------
(***************************************************************************)
(* Writing the keys of a document in order: those of the list at the end, as     *)
(* listed, the others before by their text. The keys come from a hash map in any   *)
(* order and are sorted by exchanges of neighbours; whatever the orders, the        *)
(* sequence it ends in is the same one.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Others, List       \* keys which are not listed, with ranks; the list
VARIABLES keys, seq, left
vars == <<keys, seq, left>>

Listed == {List[i] : i \in 1..Len(List)}
All == Others \cup Listed
\* the place of a key in the list, 0 if it is not listed
Rank(k) == IF k \in Listed THEN CHOOSE i \in 1..Len(List) : List[i] = k ELSE 0
TextOf(k) == CASE k = "a" -> 1 [] k = "b" -> 2 [] k = "components" -> 3 [] k = "info" -> 4 [] k = "openapi" -> 5 [] k = "paths" -> 6
               [] k = "x" -> 7 [] OTHER -> 8
Less(a, b) == Rank(a) < Rank(b) \/ (Rank(a) = Rank(b) /\ TextOf(a) < TextOf(b))

Init == keys \in SUBSET All /\ seq = <<>> /\ left = keys
Pick(k) == k \in left /\ seq' = Append(seq, k) /\ left' = left \ {k} /\ UNCHANGED keys
Swap(i) == /\ left = {} /\ i < Len(seq) /\ Less(seq[i + 1], seq[i])
           /\ seq' = [seq EXCEPT ![i] = seq[i + 1], ![i + 1] = seq[i]]
           /\ UNCHANGED <<left, keys>>
Next == (\E k \in left : Pick(k)) \/ \E i \in 1..Len(seq) : Swap(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sorted == left = {} /\ \A i \in 1..(Len(seq) - 1) : ~Less(seq[i + 1], seq[i])
\* the order is total, so there is one sorted sequence
Total == \A a, b \in All : a = b \/ Less(a, b) # Less(b, a)
SameKeys == {seq[i] : i \in 1..Len(seq)} = keys \ left /\ Len(seq) = Cardinality(keys \ left)
InList == Sorted => \A i, j \in 1..Len(List) : (i < j /\ {List[i], List[j]} \subseteq keys) =>
                        \E m, n \in 1..Len(seq) : seq[m] = List[i] /\ seq[n] = List[j] /\ m < n
Unique == Sorted => \A i, j \in 1..Len(seq) : i < j => Less(seq[i], seq[j])
Ends == <>Sorted
=============================================================================

------------------------------- MODULE PkgScan -------------------------------
(***************************************************************************)
(* The scan of a graph of packages: depth first, imports before importer,    *)
(* standard packages left out, errors collected.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* packages reachable from roots, not through standard ones
Reachable(imports, std, roots) ==
    LET RECURSIVE Grow(_)
        Grow(S) == LET T == S \cup (UNION {imports[p] : p \in S} \ std) IN IF T = S THEN S ELSE Grow(T)
    IN Grow(roots \ std)

\* what sequences of visits are right
Ordered(imports, std, visits) ==
    \A i \in 1..Len(visits) : \A q \in imports[visits[i]] \ std : \E j \in 1..(i - 1) : visits[j] = q
Once(visits) == \A i, j \in 1..Len(visits) : visits[i] = visits[j] => i = j
Visited(visits) == {visits[i] : i \in 1..Len(visits)}
RightVisits(imports, std, roots, visits) ==
    /\ Visited(visits) = Reachable(imports, std, roots)
    /\ Once(visits)
    /\ Ordered(imports, std, visits)
=============================================================================

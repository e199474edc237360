------------------------------ MODULE RouteEnum ------------------------------
\* Writes patterns of a small scope, each with all short paths.
EXTENDS Route, Json, IOUtils, SequencesExt

CONSTANTS PatParts, PathChars, PatLen, PathLen
VARIABLE e

RECURSIVE Words(_, _)
Words(S, n) == IF n = 0 THEN {""} ELSE Words(S, n - 1) \cup {w \o c : w \in Words(S, n - 1), c \in S}

P == SetToSeq(Words(PathChars, PathLen))
CaseSet == {[m |-> "route", pat |-> w, method |-> "", paths |-> P] : w \in Words(PatParts, PatLen)}
Spec == e = Cardinality(CaseSet) /\ ndJsonSerialize(IOEnv.ENUM, SetToSeq(CaseSet)) /\ [][UNCHANGED e]_e
=============================================================================

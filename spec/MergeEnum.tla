------------------------------ MODULE MergeEnum ------------------------------
\* Writes every merge of a small scope, to be executed by the code.
EXTENDS SmallDocs, Json, IOUtils, SequencesExt

CONSTANTS DestDocs, SrcDocs, Pols
VARIABLE e

CaseSet == {[m |-> "merge", pol |-> p, d |-> x, s |-> y] : p \in Pols, x \in DestDocs, y \in SrcDocs}
Spec == e = Cardinality(CaseSet) /\ ndJsonSerialize(IOEnv.ENUM, SetToSeq(CaseSet)) /\ [][UNCHANGED e]_e
=============================================================================

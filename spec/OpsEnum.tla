------------------------------- MODULE OpsEnum -------------------------------
\* Writes small documents with default operations, and small root merges.
EXTENDS OpsSteps, Json, IOUtils, SequencesExt

Rows == {[m |-> "defops", doc |-> d, ops |-> q, n |-> 3] : d \in Docs, q \in OpLists}
DumpSpec == /\ doc0 = 0 /\ ops = 0 /\ doc = 0 /\ i = 0 /\ todo = 0
            /\ ndJsonSerialize(IOEnv.ENUM, SetToSeq(Rows)) /\ [][UNCHANGED vars]_vars
=============================================================================

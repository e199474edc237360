------------------------------ MODULE ConfigEnum ------------------------------
\* Writes the scenarios of ConfigSteps.
EXTENDS ConfigSteps, Json, IOUtils, SequencesExt

DumpSpec == /\ sc = 0 /\ doc = 0 /\ todo = {} /\ st = 0 /\ phase = ""
            /\ ndJsonSerialize(IOEnv.ENUM, SetToSeq({Case(x) : x \in Scenarios})) /\ [][UNCHANGED vars]_vars
=============================================================================

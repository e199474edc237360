----------------------------- MODULE ProjectEnum ------------------------------
\* Writes the small projects of SpecsSteps, and scenarios of ConfigSteps.
EXTENDS SpecsSteps, Json, IOUtils, SequencesExt

Rows == Projects
DumpSpec == /\ pr = 0 /\ seen = {} /\ open = {} /\ taken = {} /\ whole = 0 /\ failed = FALSE /\ phase = ""
            /\ ndJsonSerialize(IOEnv.ENUM, SetToSeq(Rows)) /\ [][UNCHANGED vars]_vars
=============================================================================

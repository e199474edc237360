----------------------------- MODULE TraceLoop ------------------------------
(***************************************************************************)
(* Validation of recorded executions. TRACE names a file of JSON lines, each *)
(* a case together with what the real code did with it (field out). The      *)
(* behaviours of this module walk over the file, in chunks which TLC checks  *)
(* in parallel; invariant Accepted is that the specification allows every    *)
(* execution. Crashes, panics and hangs are never allowed.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Accepts(_), Chunk

VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)

TraceInit == l \in {i \in 1..Len(Trace) : i % Chunk = 1 % Chunk}
TraceNext == /\ l < Len(Trace)
             /\ (l + 1) % Chunk # 1 % Chunk
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l

Abnormal(c) == {"panic", "hang", "crash"} \cap DOMAIN c.out # {}

Accepted == ~Abnormal(Trace[l]) /\ Accepts(Trace[l])
=============================================================================

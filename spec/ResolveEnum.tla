----------------------------- MODULE ResolveEnum -----------------------------
\* Writes graphs of types, sets of exports and documents, to be resolved by the code.
EXTENDS ResolveSteps, Json, IOUtils

Cases == {[env |-> EnvOf(g), exports |-> [t \in {Ts[i] : i \in S} |-> NameOf(t)], doc |-> DocOf(q)]
          : g \in Graphs, S \in ExportSets, q \in DocRefs}
Row(g, S, q) == [m |-> "resolve", doc |-> DocOf(q),
                 env |-> [i \in 1..3 |-> [ptr |-> Ts[i], v |-> Node(NameOf(Ts[i]), g[i])]],
                 exports |-> LET T == SetToSeq(S) IN [i \in 1..Len(T) |-> [name |-> NameOf(Ts[T[i]]), ptr |-> Ts[T[i]]]]]
Rows == {Row(g, S, q) : g \in Graphs, S \in ExportSets, q \in DocRefs}
DumpSpec == /\ env = 0 /\ exports = 0 /\ doc = 0 /\ con = 0 /\ defs = 0 /\ stack = 0 /\ failed = 0
            /\ ndJsonSerialize(IOEnv.ENUM, SetToSeq(Rows)) /\ [][UNCHANGED vars]_vars
=============================================================================

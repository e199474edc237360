---------------------------- MODULE PkgScanSteps -----------------------------
\* The depth first search as a machine with a stack, on all graphs of a scope.
EXTENDS PkgScan, Json, IOUtils

CONSTANTS N
VARIABLES imports, std, failing, roots, stack, seen, visits, errs

vars == <<imports, std, failing, roots, stack, seen, visits, errs>>
Nodes == 1..N

\* acyclic: i imports only smaller ones
Graphs == {g \in [Nodes -> SUBSET Nodes] : \A i \in Nodes : \A j \in g[i] : j < i}

Init == /\ imports \in Graphs
        /\ std \in SUBSET Nodes
        /\ \A s \in std : imports[s] \subseteq std
        /\ failing \in SUBSET (Nodes \ std)
        /\ roots \in (SUBSET Nodes \ {{}})
        /\ stack = <<>> /\ seen = {} /\ visits = <<>> /\ errs = {}

\* a frame: package and imports still to be visited
Enter(p) == /\ stack' = Append(stack, [p |-> p, todo |-> imports[p]])
            /\ seen' = seen \cup {p}
Root == /\ stack = <<>>
        /\ \E p \in roots \ (seen \cup std) : Enter(p)
        /\ UNCHANGED <<visits, errs>>
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Down == /\ stack # <<>>
        /\ \E q \in Top.todo :
             LET s == [stack EXCEPT ![Len(stack)].todo = @ \ {q}] IN
             IF q \in seen \cup std THEN stack' = s /\ UNCHANGED seen
             ELSE stack' = Append(s, [p |-> q, todo |-> imports[q]]) /\ seen' = seen \cup {q}
        /\ UNCHANGED <<visits, errs>>
Scan == /\ stack # <<>> /\ Top.todo = {}
        /\ visits' = Append(visits, Top.p)
        /\ errs' = IF Top.p \in failing THEN errs \cup {Top.p} ELSE errs
        /\ stack' = Pop
        /\ UNCHANGED seen
Next == (Root \/ Down \/ Scan) /\ UNCHANGED <<imports, std, failing, roots>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == stack = <<>> /\ roots \subseteq seen \cup std
Right == Done => /\ RightVisits(imports, std, roots, visits)
                 /\ errs = failing \cap Reachable(imports, std, roots)
Sofar == Once(visits) /\ Ordered(imports, std, visits) /\ Visited(visits) \cap std = {}
Ends == <>Done
=============================================================================

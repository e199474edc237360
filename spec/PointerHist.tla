----------------------------- MODULE PointerHist -----------------------------
\* Histories of derivations, each action one operation.
EXTENDS Pointer, Json

CONSTANTS Handles, Toks, MaxLen, MaxOps
VARIABLES st, hist

Ops == {[op |-> "desc", h |-> h, from |-> f, path |-> t] : h, f \in Handles, t \in {"a", "/b", "a~1b", ""}}
       \cup {[op |-> "raw", h |-> h, from |-> f, toks |-> q] : h, f \in Handles, q \in {<<t>> : t \in Toks} \cup {<<>>}}
       \cup {[op |-> "replace", h |-> h, from |-> f, n |-> i, tok |-> t] : h, f \in Handles, t \in Toks, i \in 0..1}
       \cup {[op |-> k, h |-> h, from |-> f] : h, f \in Handles, k \in {"clone", "reparse"}}

Init == st = [h \in Handles |-> NoPtr] /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E op \in Ops :
             LET r == Derive(st, op) IN
             /\ hist' = Append(hist, op)
             /\ st' = IF IsFail(r) THEN st ELSE [st EXCEPT ![op.h] = r.ok]
             /\ ~IsFail(r) => Len(r.ok.toks) <= MaxLen
Spec == Init /\ [][Next]_<<st, hist>>
NoHist == st

\* a derivation changes nothing but the pointer it makes
Isolated == [][\A h \in Handles : h # hist'[Len(hist')].h => st'[h] = st[h]]_<<st, hist>>
Emit == Len(hist) = MaxOps => PrintT("HIST " \o ToJson(hist))
=============================================================================

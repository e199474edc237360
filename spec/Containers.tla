----------------------------- MODULE Containers ------------------------------
(***************************************************************************)
(* Several documents (containers) under a sequence of operations. A handle   *)
(* holds a value: whatever is put into a document is copied, so that no       *)
(* operation on one handle changes another one. This module is the state      *)
(* machine; its operations are replayed on, and its histories compared with,  *)
(* the real containers.                                                     *)
(***************************************************************************)
EXTENDS ContainerOps

CONSTANTS Handles, InitValues, SetPaths, MaxOps

VARIABLES hs,    \* value of each handle
          hist   \* operations so far
vars == <<hs, hist>>

Do(op) == /\ hs' = Apply(hs, op).st
          /\ hist' = Append(hist, op)

Ops ==
    UNION {
      {[op |-> "make", h |-> h, v |-> v] : v \in InitValues} \cup
      {[op |-> o, h |-> h, from |-> f] : o \in {"makefrom", "makedata", "clone", "replace"}, f \in Handles} \cup
      {[op |-> "set", h |-> h, p |-> p, v |-> v] : p \in SetPaths, v \in InitValues} \cup
      {[op |-> o, h |-> h, p |-> p, from |-> f] : o \in {"setfrom", "setdata"}, p \in SetPaths, f \in Handles} \cup
      {[op |-> "merge", h |-> h, from |-> f, pol |-> pol] : pol \in Policies, f \in Handles} \cup
      {[op |-> "mergeall", h |-> h, all |-> <<f, g>>, pol |-> pol] : pol \in Policies, f \in Handles, g \in Handles} \cup
      {[op |-> "get", h |-> h, p |-> p] : p \in SetPaths}
      : h \in Handles}

Init == hs = [h \in Handles |-> EmptyObj] /\ hist = <<>>
Next == Len(hist) < MaxOps /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars

\* an operation changes the handle it is applied to and no other
Isolated == [][\A h \in Handles : hs'[h] # hs[h] => hist'[Len(hist')].h = h]_vars
\* documents stay documents
Documents == \A h \in Handles : IsObj(hs[h])

SmallValues == {Obj("a" :> Num("1")), Obj("a" :> Obj("b" :> Arr(<<Num("1"), EmptyObj>>)))}
SmallPaths == {<<"a">>, <<"a", "b">>, <<"a", "b", "1">>, <<"a", "b", "1", "a">>}
View == <<hs, Len(hist)>>
=============================================================================

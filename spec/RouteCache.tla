----------------------------- MODULE RouteCache ------------------------------
(***************************************************************************)
(* Threads which match patterns at the same time, sharing compiled patterns  *)
(* under a lock. Compiling a bad pattern fails. Whatever the interleaving,    *)
(* a call answers what Match says about its own pattern and path, only the    *)
(* holder of the lock touches the cache, and all calls return.                *)
(***************************************************************************)
EXTENDS Route, Json

CONSTANTS Threads, Patterns, Routes, Calls, Unlocked, Record
VARIABLES pc, call, cache, lock, left, res, hist

vars == <<pc, call, cache, lock, left, res, hist>>
Bad == "BAD"
None == [pat |-> "", path |-> ""]
Compile(p) == IF p = Bad THEN Fail ELSE [ok |-> Items(p)]

Init == /\ pc = [t \in Threads |-> "idle"]
        /\ call = [t \in Threads |-> None]
        /\ cache = [p \in {} |-> <<>>]
        /\ lock = {}
        /\ left = [t \in Threads |-> Calls]
        /\ res = [t \in Threads |-> "none"]
        /\ hist = <<>>

Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0
            /\ \E p \in Patterns, x \in Routes :
                 /\ call' = [call EXCEPT ![t] = [pat |-> p, path |-> x]]
                 /\ hist' = IF Record THEN Append(hist, [pat |-> p, method |-> "", path |-> x]) ELSE hist
            /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ pc' = [pc EXCEPT ![t] = "lock"]
            /\ UNCHANGED <<cache, lock, res>>
Lock(t) == /\ pc[t] = "lock" /\ (lock = {} \/ Unlocked)
           /\ lock' = lock \cup {t}
           /\ pc' = [pc EXCEPT ![t] = "lookup"]
           /\ UNCHANGED <<call, cache, left, res, hist>>
Lookup(t) == /\ pc[t] = "lookup"
             /\ pc' = [pc EXCEPT ![t] = IF call[t].pat \in DOMAIN cache THEN "unlock" ELSE "compile"]
             /\ UNCHANGED <<call, cache, lock, left, res, hist>>
CompileIt(t) ==
    /\ pc[t] = "compile"
    /\ LET r == Compile(call[t].pat) IN
       /\ cache' = IF IsFail(r) THEN cache ELSE (call[t].pat :> r.ok) @@ cache
       /\ res' = [res EXCEPT ![t] = IF IsFail(r) THEN "err" ELSE "none"]
    /\ pc' = [pc EXCEPT ![t] = "unlock"]
    /\ UNCHANGED <<call, lock, left, hist>>
Unlock(t) == /\ pc[t] = "unlock"
             /\ lock' = lock \ {t}
             /\ pc' = [pc EXCEPT ![t] = IF res[t] = "err" THEN "done" ELSE "match"]
             /\ UNCHANGED <<call, cache, left, res, hist>>
MatchIt(t) == /\ pc[t] = "match"
              /\ res' = [res EXCEPT ![t] = IF MatchItems(cache[call[t].pat], call[t].path) THEN "yes" ELSE "no"]
              /\ pc' = [pc EXCEPT ![t] = "done"]
              /\ UNCHANGED <<call, cache, lock, left, hist>>
Return(t) == /\ pc[t] = "done"
             /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ res' = [res EXCEPT ![t] = "none"]
             /\ UNCHANGED <<call, cache, lock, left, hist>>

Step(t) == Begin(t) \/ Lock(t) \/ Lookup(t) \/ CompileIt(t) \/ Unlock(t) \/ MatchIt(t) \/ Return(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

Correct == \A t \in Threads : pc[t] = "done" =>
    res[t] = IF call[t].pat = Bad THEN "err" ELSE IF Match(call[t].pat, "", call[t].path) THEN "yes" ELSE "no"
Exclusive == Cardinality(lock) <= 1
             /\ Cardinality({t \in Threads : pc[t] \in {"lookup", "compile", "unlock"}}) <= 1
CacheRight == \A p \in DOMAIN cache : cache[p] = Items(p)
AllReturn == <>[](\A t \in Threads : pc[t] = "idle" /\ left[t] = 0)
Emit == (\A t \in Threads : left[t] = 0 /\ pc[t] = "idle") => PrintT("HIST " \o ToJson(hist))
=============================================================================

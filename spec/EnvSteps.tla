------------------------------- MODULE EnvSteps -------------------------------
(***************************************************************************)
(* What references denote, found out as the code does: one pending pointer after *)
(* another, in any order, the overrides being asked before the Go types; what a    *)
(* type or override refers to is pending then. It ends; an overridden pointer        *)
(* denotes its override, whether there is such a type or not, every other one what  *)
(* it denotes without any override; and types which only overridden ones lead to     *)
(* are not looked at.                                                         *)
(***************************************************************************)
EXTENDS Resolve

CONSTANTS Types, Overs, Starts
VARIABLES types, over, start, env, todo
vars == <<types, over, start, env, todo>>

Ts == <<"go://p#/A", "go://p#/B", "go://p#/B/F", "go://q#/A">>
Missing0 == "go://p#/None"
Ref(t) == Obj("$ref" :> Str(t))
ObjTo(n, q) == Obj(("is" :> Str(n)) @@ (IF Len(q) > 0 THEN "x" :> Ref(q[1]) ELSE NoKeys) @@ (IF Len(q) > 1 THEN "y" :> Arr(<<Ref(q[2])>>) ELSE NoKeys))
RefLists == {<<>>, <<Ts[1]>>, <<Ts[3], Ts[4]>>, <<Ts[2], Missing0>>, <<Ts[2]>>}
FewRefLists == {<<>>, <<Ts[1]>>, <<Ts[3], Ts[4]>>}
\* A and B have the same fields: nothing but the pointer tells them apart
SmallTypes == {[t \in {Ts[1], Ts[2], Ts[3]} |-> ObjTo("type", IF t = Ts[3] THEN b ELSE a)] : a, b \in RefLists}
SmallOvers == UNION {[S -> {ObjTo("over", q) : q \in FewRefLists}] : S \in {{}, {Ts[1]}, {Ts[3]}, {Ts[1], Missing0}, {Ts[2], Ts[4]}, {Ts[4]}}}
SmallStarts == {{Ts[1]}, {Ts[1], Ts[2]}, {Ts[2], Missing0}}

NoEnv == [t \in {} |-> 0]
Init == types \in Types /\ over \in Overs /\ start \in Starts /\ env = NoEnv /\ todo = start
Denoted(t) == IF t \in DOMAIN over THEN [ok |-> over[t]] ELSE IF t \in DOMAIN types THEN [ok |-> types[t]] ELSE Fail
Look(t) == /\ t \in todo
           /\ env' = (t :> Denoted(t)) @@ env
           /\ todo' = (todo \cup (IF IsFail(Denoted(t)) THEN {} ELSE AllRefs(Denoted(t).ok))) \ DOMAIN env'
Next == \E t \in todo : Look(t) /\ UNCHANGED <<types, over, start>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == todo = {}
Doc == Obj("paths" :> Arr([i \in 1..Len(Ts) |-> IF Ts[i] \in start THEN Ref(Ts[i]) ELSE Null]))
\* the overridden types are replaced and no others
Replaced == \A t \in DOMAIN env : IF t \in DOMAIN over THEN env[t] = [ok |-> over[t]]
                                 ELSE IF t \in DOMAIN types THEN env[t] = [ok |-> types[t]] ELSE IsFail(env[t])
\* found is what can be reached, and the result is that of resolving with all that there is
Whole == over @@ types
Reached == LET RECURSIVE Grow(_)
               Grow(S) == LET T == S \cup UNION {AllRefs(Whole[t]) : t \in S \cap DOMAIN Whole} IN IF T = S THEN S ELSE Grow(T)
           IN Grow(start)
Exact == Done => DOMAIN env = Reached
Same0 == Done => Resolve(env, NoEnv, Doc) = Resolve([t \in DOMAIN Whole |-> [ok |-> Whole[t]]], NoEnv, Doc)
\* whoever does not come across an overridden type gets the same document with and without
Frame == (Done /\ DOMAIN env \cap DOMAIN over = {}) =>
            Resolve(env, NoEnv, Doc) = Resolve([t \in DOMAIN types |-> [ok |-> types[t]]], NoEnv, Doc)
Ends == <>Done
=============================================================================

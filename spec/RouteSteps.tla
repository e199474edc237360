----------------------------- MODULE RouteSteps ------------------------------
(***************************************************************************)
(* A matcher which consumes pattern and path step by step, guessing how much *)
(* a variable or star stands for: it can finish exactly for the paths which   *)
(* Match says.                                                               *)
(***************************************************************************)
EXTENDS Route

CONSTANTS PatParts, PathChars, PatLen, PathLen
VARIABLES pat, path, i, j, in

vars == <<pat, path, i, j, in>>

RECURSIVE Words(_, _)
Words(S, n) == IF n = 0 THEN {""} ELSE {w \o c : w \in Words(S, n - 1), c \in S \cup {""}}

Init == /\ pat \in {Items(w) : w \in Words(PatParts, PatLen)}
        /\ path \in Words(PathChars, PathLen)
        /\ i = 1 /\ j = 0 /\ in = FALSE

\* in: the current variable stands for at least one character
Char == /\ i <= Len(pat) /\ pat[i] \notin {"{}", "**"} /\ j < Len(path) /\ SubSeq(path, j + 1, j + 1) = pat[i]
        /\ i' = i + 1 /\ j' = j + 1 /\ in' = FALSE
Take == /\ i <= Len(pat) /\ j < Len(path)
        /\ \/ pat[i] = "**"
           \/ pat[i] = "{}" /\ SubSeq(path, j + 1, j + 1) # "/"
        /\ j' = j + 1 /\ in' = TRUE /\ i' = i
Leave == /\ i <= Len(pat) /\ (pat[i] = "**" \/ (pat[i] = "{}" /\ in))
         /\ i' = i + 1 /\ in' = FALSE /\ j' = j
Next == (Char \/ Take \/ Leave) /\ UNCHANGED <<pat, path>>
Spec == Init /\ [][Next]_vars

Rest == SubSeq(pat, i, Len(pat))
\* all that can still happen agrees with what is left to match
Sound == (i > Len(pat) /\ j = Len(path)) => MatchItems(pat, path)
\* a matching path is never lost for want of a step
Complete == (i = 1 /\ j = 0 /\ MatchItems(pat, path) /\ path # "") => ENABLED Next
\* from anywhere, as long as the rest can match, there is a step after which it still can
RestMatches(k, n, inside) ==
    LET q == SubSeq(pat, k, Len(pat))
        x == SubSeq(path, n + 1, Len(path))
    IN MatchItems(q, x) \/ (inside /\ q # <<>> /\ MatchItems(Tail(q), x))
Onward == RestMatches(i, j, in) => (i > Len(pat) /\ j = Len(path)) \/ ENABLED (Next /\ RestMatches(i', j', in'))
\* what is reachable after an item is what Reach says
Tracked == ~in => j \in Reach({0}, SubSeq(pat, 1, i - 1), path)
\* patterns without variables describe themselves only
Literal == (\A k \in 1..Len(pat) : pat[k] \notin {"{}", "**"}) =>
           (MatchItems(pat, path) <=> Items(path) = pat)
=============================================================================

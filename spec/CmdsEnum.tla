------------------------------ MODULE CmdsEnum -------------------------------
\* All comments made of a few words, and what declaring means for them.
EXTENDS Cmds, Json, IOUtils, SequencesExt

CONSTANTS Starts, Args, MaxArgs
VARIABLE c

RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE " " \o q[1] \o Join(Tail(q))
Texts == {s \o Join(q) : s \in Starts, q \in UNION {[1..n -> Args] : n \in 0..MaxArgs}}
Init == c \in Texts
Spec == Init /\ [][UNCHANGED c]_c

\* an export has a name, and what it exports does not depend on the package if it says so itself
Sane == LET r == Declares(c, "ex.com/p") IN
        /\ (~IsFail(r) /\ r.ok # <<>>) => r.ok[1].name # "" /\ IsCmd(c)
        /\ ~IsCmd(c) => r = Nothing
        /\ TrimRight(c) # c => r = Declares(TrimRight(c), "ex.com/p")
        /\ (~IsFail(r) /\ r.ok # <<>>) =>
              LET w == Words(c) IN
              HasChar(w[Len(w)], "#") <=> Declares(c, "ex.com/q") = r
=============================================================================

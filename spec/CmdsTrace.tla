------------------------------ MODULE CmdsTrace ------------------------------
EXTENDS Cmds, TraceLoop

\* the exports reported are those declared, each once, as schemas
CmdsAccepts(c) ==
    LET want == Exports(c.comments)
        decl == AllDeclared(c.comments)
    IN IF IsFail(want) THEN "err" \in DOMAIN c.out
       ELSE /\ "ok" \in DOMAIN c.out
            /\ Len(c.out.ok) = Len(want.ok)
            /\ \A i \in 1..Len(want.ok) : \E j \in 1..Len(c.out.ok) :
                 /\ c.out.ok[j].name = want.ok[i].name
                 /\ ParsePtr(c.out.ok[j].ptr) = [ok |-> want.ok[i].ptr]
                 /\ ParseFrag(c.out.ok[j].at) = [ok |-> <<"components", "schemas", want.ok[i].name>>]
            /\ {ParsePtr(c.out.ptrs[j]).ok : j \in 1..Len(c.out.ptrs)} = {want.ok[i].ptr : i \in 1..Len(want.ok)}
=============================================================================

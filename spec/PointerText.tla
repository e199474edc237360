----------------------------- MODULE PointerText -----------------------------
\* All short fragments, one per state: text and tokens determine each other.
EXTENDS Pointer

CONSTANTS Chars, TokLen, FragLen
VARIABLE p

Toks == {""} \cup
        (LET RECURSIVE Words(_)
             Words(n) == IF n = 0 THEN {""} ELSE {w \o c : w \in Words(n - 1), c \in Chars}
         IN UNION {Words(n) : n \in 1..TokLen})

Init == p = <<>>
Next == Len(p) < FragLen /\ \E t \in Toks : p' = Append(p, t)
Spec == Init /\ [][Next]_p

RoundTrip == /\ ParseFrag(FragText(p)) = [ok |-> p]
             /\ \A s \in {"", "go"} :
                  LET x == Pointer(s, IF s = "" THEN "" ELSE "ex.com/p", p) IN ParsePtr(PtrText(x)) = [ok |-> x]
Extends == p # <<>> => FragText(p) # FragText(SubSeq(p, 1, Len(p) - 1))
=============================================================================

------------------------------ MODULE DotPath --------------------------------
(***************************************************************************)
(* Dot paths: the text form of a sequence of keys. '~' is written ~0 and '.'  *)
(* is written ~1, so that '.' is left as separator of keys. Checked over all  *)
(* short sequences of keys: a path is read back as the sequence it was made   *)
(* from, hence different sequences have different paths.                      *)
(***************************************************************************)
EXTENDS Values

EscChar(c) == IF c = "~" THEN "~0" ELSE IF c = "." THEN "~1" ELSE c
Esc(k) == MapChars(k, EscChar)

RECURSIVE Join(_)
Join(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o "." \o Join(Tail(q))
PathText(ks) == Join([i \in 1..Len(ks) |-> Esc(ks[i])])

RECURSIVE Unesc(_)
Unesc(s) == IF s = "" THEN ""
            ELSE IF HasPrefix(s, "~0") THEN "~" \o Unesc(Drop(s, 2))
            ELSE IF HasPrefix(s, "~1") THEN "." \o Unesc(Drop(s, 2))
            ELSE SubSeq(s, 1, 1) \o Unesc(Drop(s, 1))
RECURSIVE Split(_)
Split(s) == LET i == Index(s, ".") IN
            IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(Drop(s, i))
ReadPath(s) == LET q == Split(s) IN [i \in 1..Len(q) |-> Unesc(q[i])]

CONSTANTS Chars, KeyLen, PathLen
VARIABLE ks

RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {""} ELSE Strings(n - 1) \cup {s \o c : s \in Strings(n - 1), c \in Chars}

\* grows key sequences one character or one key at a time
Init == ks = <<"">>
Next == \/ \E c \in Chars : /\ Len(ks[Len(ks)]) < KeyLen
                            /\ ks' = [ks EXCEPT ![Len(ks)] = @ \o c]
                           
        \/ Len(ks) < PathLen /\ ks' = Append(ks, "")
Spec == Init /\ [][Next]_ks

RoundTrip == ReadPath(PathText(ks)) = ks
\* the escaped form of a key contains no separator
NoSeparator == \A i \in 1..Len(ks) : ~HasChar(Esc(ks[i]), ".")
=============================================================================

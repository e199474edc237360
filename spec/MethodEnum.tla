------------------------------ MODULE MethodEnum ------------------------------
\* Writes patterns of every method (and of what looks like one), each with every method
\* and what remains of it without its first or last letter.
EXTENDS Route, Json, IOUtils, SequencesExt

VARIABLE e

Upper(s) == MapChars(s, LAMBDA c : IF \E l \in UpperSet : LowerOf[l] = c THEN CHOOSE l \in UpperSet : LowerOf[l] = c ELSE c)
Given == Methods \cup {Upper(m) : m \in Methods} \cup {SubSeq(m, 2, Len(m)) : m \in Methods} \cup {SubSeq(m, 1, Len(m) - 1) : m \in Methods}
         \cup {m \o "s" : m \in Methods} \cup {"x", ""}
Named == Methods \cup {"gets", "ge", "et", "baseline", "control", "version", "", "x"}
Asked == <<"/a", "/b", "a", "", ":/a">>
CaseSet == {[m |-> "route", pat |-> p \o ":/a", method |-> g, paths |-> Asked] : p \in Named, g \in Given}
            \cup {[m |-> "route", pat |-> p \o q, method |-> "get", paths |-> <<"/a", p \o q, p \o "/a", "">>] :
                   p \in Methods, q \in {"", "/a", ": /a", "::/a", ":", " :/a", "*:/a", "/:/a"}}
Spec == e = Cardinality(CaseSet) /\ ndJsonSerialize(IOEnv.ENUM, SetToSeq(CaseSet)) /\ [][UNCHANGED e]_e
=============================================================================

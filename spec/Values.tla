------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Documents: the JSON values on which the whole tool works.                *)
(*                                                                         *)
(* A value is one of                                                       *)
(*   [o |-> f]  object, f a function from key strings to values            *)
(*   [e |-> "o"]  the empty object (TLC cannot compare empty functions      *)
(*              with records)                                              *)
(*   [a |-> q]  array, q a sequence of values                              *)
(*   [s |-> x]  scalar; x is "z" for null, or a string which starts with    *)
(*              "t:" (string), "n:" (number) or "b:" (boolean)             *)
(* so that values of different kinds can be compared.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NoKeys == [k \in {} |-> 0]
EmptyObj == [e |-> "o"]
Obj(f) == IF DOMAIN f = {} THEN EmptyObj ELSE [o |-> f]
Arr(q) == [a |-> q]
Scalar(x) == [s |-> x]
Str(x) == [s |-> "t:" \o x]
Num(x) == [s |-> "n:" \o x]
True == [s |-> "b:true"]
False == [s |-> "b:false"]
Null == [s |-> "z"]
EmptyArr == Arr(<<>>)

IsObj(v) == "o" \in DOMAIN v \/ "e" \in DOMAIN v
IsArr(v) == "a" \in DOMAIN v
IsScalar(v) == "s" \in DOMAIN v
IsNull(v) == v = Null

HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
IsStr(v) == IsScalar(v) /\ HasPrefix(v.s, "t:")
Text(v) == Drop(v.s, 2)

Keys(v) == IF "o" \in DOMAIN v THEN DOMAIN v.o ELSE {}
HasKey(v, k) == "o" \in DOMAIN v /\ k \in DOMAIN v.o
\* object v with key k set to x, and without keys ks
Put(v, k, x) == [o |-> IF Keys(v) = {} THEN k :> x ELSE (k :> x) @@ v.o]
Without(v, ks) == Obj([k \in Keys(v) \ ks |-> v.o[k]])

\* position of the first occurrence of character c in string s, 0 if none
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, c, i) == IF i > Len(s) THEN 0
                      ELSE IF SubSeq(s, i, i) = c THEN i ELSE IndexFrom(s, c, i + 1)
Index(s, c) == IndexFrom(s, c, 1)
HasChar(s, c) == Index(s, c) > 0

\* replaces each character c of s by Sub(c)
MapChars(s, Sub(_)) ==
    LET RECURSIVE Each(_)
        Each(x) == IF x = "" THEN "" ELSE Sub(SubSeq(x, 1, 1)) \o Each(Drop(x, 1))
    IN Each(s)

\* decimal numerals
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Numeral(_)
Numeral(n) == IF n < 10 THEN Digits[n + 1] ELSE Numeral(n \div 10) \o Digits[(n % 10) + 1]

\* index into an array of n elements which numeral k stands for, 0 if none
IndexOf(k, n) == LET S == {i \in 1..n : Numeral(i - 1) = k}
                 IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

Elems(q) == {q[i] : i \in 1..Len(q)}

SumOf(S, f(_)) == LET RECURSIVE Sum(_)
                      Sum(T) == IF T = {} THEN 0
                                ELSE LET x == CHOOSE x \in T : TRUE IN f(x) + Sum(T \ {x})
                  IN Sum(S)

(***************************************************************************)
(* Addressing by a sequence of keys.                                       *)
(***************************************************************************)
Missing == [missing |-> TRUE]

RECURSIVE Get(_, _)
Get(v, p) ==
    IF p = <<>> THEN [ok |-> v]
    ELSE LET k == p[1] IN
         IF IsObj(v) THEN IF k \in Keys(v) THEN Get(v.o[k], Tail(p)) ELSE Missing
         ELSE IF IsArr(v) THEN LET i == IndexOf(k, Len(v.a)) IN
                               IF i = 0 THEN Missing ELSE Get(v.a[i], Tail(p))
         ELSE Missing
Exists(v, p) == "ok" \in DOMAIN Get(v, p)
At(v, p) == Get(v, p).ok

\* Setting constructs missing objects on the way, but does not replace
\* scalars or extend arrays.
Fail == [err |-> TRUE]
IsFail(r) == "err" \in DOMAIN r

RECURSIVE Set(_, _, _)
Set(v, p, x) ==
    IF p = <<>> THEN [ok |-> x]
    ELSE LET k == p[1] IN
    IF IsObj(v) THEN
        LET c == IF k \in Keys(v) /\ ~IsNull(v.o[k]) THEN v.o[k] ELSE EmptyObj
            r == Set(c, Tail(p), x)
        IN IF IsFail(r) THEN r ELSE [ok |-> Put(v, k, r.ok)]
    ELSE IF IsArr(v) THEN
        LET i == IndexOf(k, Len(v.a)) IN
        IF i = 0 \/ (Len(p) > 1 /\ IsNull(v.a[i])) THEN Fail
        ELSE LET r == Set(v.a[i], Tail(p), x)
             IN IF IsFail(r) THEN r ELSE [ok |-> Arr([v.a EXCEPT ![i] = r.ok])]
    ELSE Fail
\* setting in a whole document, which may be null
SetDoc(v, p, x) == Set(IF IsNull(v) /\ p # <<>> THEN EmptyObj ELSE v, p, x)

\* paths of all values inside v, v itself (<<>>) included
RECURSIVE Paths(_)
Paths(v) ==
    {<<>>} \cup
    (IF IsObj(v) THEN UNION {{<<k>> \o p : p \in Paths(v.o[k])} : k \in Keys(v)}
     ELSE IF IsArr(v) THEN UNION {{<<Numeral(i - 1)>> \o p : p \in Paths(v.a[i])} : i \in 1..Len(v.a)}
     ELSE {})

\* paths of the scalars which are under key k of an object
RECURSIVE Occurrences(_, _)
Occurrences(v, k) ==
    IF IsObj(v) THEN
        UNION {IF IsScalar(v.o[j]) THEN (IF j = k THEN {<<j>>} ELSE {})
               ELSE {<<j>> \o p : p \in Occurrences(v.o[j], k)} : j \in Keys(v)}
    ELSE IF IsArr(v) THEN
        UNION {{<<Numeral(i - 1)>> \o p : p \in Occurrences(v.a[i], k)} : i \in 1..Len(v.a)}
    ELSE {}
=============================================================================

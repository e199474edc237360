------------------------------ MODULE TypesWalk ------------------------------
(***************************************************************************)
(* How the addresses of types are found: from every registered type the      *)
(* graph of types is walked, each type met being registered under the        *)
(* pointer it was met at. A path ends where it meets a type it went through.  *)
(* Named types which are met are walked under their own name as well, each    *)
(* of them once. Programs: all of a package with three types built from a     *)
(* few shapes. The walk must end (it is cut by paths, and by the names it     *)
(* started from) and register, for any subset of the types being asked for,   *)
(* exactly what TypeAt says below those, and below every named type met.      *)
(***************************************************************************)
EXTENDS Types, TLC, SequencesExt

CONSTANTS Shapes, MaxToks

P == "ex.com/a"
N(n) == [k |-> "named", p |-> P, n |-> n]
Int32 == [k |-> "basic", b |-> "int32"]
Fl(n, t, x) == [n |-> n, t |-> t, emb |-> FALSE, x |-> x, tag |-> "", jn |-> "", jo |-> <<>>, on |-> "", oo |-> <<>>]
S1(t) == [k |-> "struct", f |-> <<Fl("F", t, TRUE)>>]
S2(t, u) == [k |-> "struct", f |-> <<Fl("F", t, TRUE), Fl("g", u, FALSE)>>]
Sl(t) == [k |-> "slice", t |-> t]
Pt(t) == [k |-> "ptr", t |-> t]
Shape(s) == CASE s = "int" -> Int32
              [] s = "A" -> S1(Sl(N("A"))) [] s = "B" -> S1(Pt(N("B"))) [] s = "C" -> S2(N("B"), Sl(N("C")))
              [] s = "anonA" -> S1(Pt(S1(Pt(N("A"))))) [] s = "sliceB" -> Sl(N("B")) [] s = "ptrC" -> Pt(N("C"))
              [] s = "hidden" -> [k |-> "struct", f |-> <<[Fl("C", N("C"), FALSE) EXCEPT !.emb = TRUE], Fl("F", Int32, TRUE)>>]
              [] s = "hiddenptr" -> [k |-> "struct", f |-> <<[Fl("B", Pt(N("B")), FALSE) EXCEPT !.emb = TRUE]>>]
              [] s = "selfslice" -> Sl(N("A")) [] s = "two" -> [k |-> "struct", f |-> <<Fl("F", Pt(N("A")), TRUE), Fl("G", Sl(N("C")), TRUE)>>]

\* no type may contain itself other than by reference
RECURSIVE Finite(_, _, _)
Finite(D, t, seen) == CASE t.k = "named" -> t.n \notin seen /\ Finite(D, D[t.p][t.n], seen \cup {t.n})
                        [] t.k = "struct" -> \A i \in 1..Len(t.f) : Finite(D, t.f[i].t, seen)
                        [] OTHER -> TRUE
Progs == {D \in {P :> [A |-> Shape(a), B |-> Shape(b), C |-> Shape(c)] : a, b, c \in Shapes} :
            \A n \in {"A", "B", "C"} : Finite(D, N(n), {})}

VARIABLES prog, roots, stack, points, steps
vars == <<prog, roots, stack, points, steps>>

\* own: a walk of a type under its own name
Item(toks, t, seen) == [toks |-> toks, t |-> t, seen |-> seen, own |-> FALSE]
Own(t) == [Item(<<t.n>>, t, {}) EXCEPT !.own = TRUE]
Point(toks, u) == [toks |-> toks, u |-> u]

Init == /\ prog \in Progs
        /\ roots \in (SUBSET {"A", "B", "C"}) \ {{}}
        /\ stack = LET q == SelectSeq(<<"A", "B", "C">>, LAMBDA n : n \in roots)
                   IN [i \in 1..Len(q) |-> Own(N(q[i]))]
        /\ points = {} /\ steps = 0

\* embedded structs which have no pointer of their own
Hidden(u) == IF u.k # "struct" THEN {}
             ELSE {IF u.f[i].t.k = "ptr" THEN u.f[i].t.t ELSE u.f[i].t : i \in {j \in 1..Len(u.f) : ~u.f[j].x /\ u.f[j].emb
                                                                                       /\ Struct(prog, u.f[j].t).k = "struct"}}

Step == /\ stack # <<>>
        /\ LET it == stack[1]
               u == Und(prog, it.t)
               B == SetToSeq(Below(u))
               H == SetToSeq(Hidden(u))
               RECURSIVE Push(_)
               Push(i) == IF i > Len(B) THEN [k \in 1..Len(H) |-> Own(H[k])] \o Tail(stack)
                          ELSE <<Item(Append(it.toks, B[i].tok), B[i].t, it.seen \cup {u})>>
                               \o (IF B[i].t.k = "named" THEN <<Own(B[i].t)>> ELSE <<>>)
                               \o Push(i + 1)
               known == it.own /\ Point(it.toks, u) \in points
           IN /\ points' = points \cup {Point(it.toks, u)}
              /\ stack' = IF u \in it.seen \/ known THEN Tail(stack) ELSE Push(1)
              /\ steps' = IF known THEN steps ELSE steps + 1
        /\ UNCHANGED <<prog, roots>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

Ends == <>(stack = <<>>)
\* no pointer is walked twice
Once == steps = Cardinality(points)
\* nothing is registered under a wrong pointer
Sound == \A p \in points : TypeAt(prog, P, p.toks) = [ok |-> p.u]
Toks == {"F", "G", "g", "*", "[]", "A"}
RECURSIVE AllToks(_)
AllToks(n) == IF n = 0 THEN {<<>>} ELSE AllToks(n - 1) \cup {Append(q, t) : q \in AllToks(n - 1), t \in Toks}
\* what was asked for is found
Complete == stack = <<>> =>
    \A r \in roots \cup {n \in {"A", "B", "C"} : \E p \in points : p.toks = <<n>>} : \A q \in AllToks(MaxToks) :
        LET a == TypeAt(prog, P, <<r>> \o q) IN ~IsFail(a) => Point(<<r>> \o q, a.ok) \in points
\* and so is everything the schemas of found types refer to
RECURSIVE Refs(_)
Refs(s) == IF "anon" \in DOMAIN s THEN {s}
           ELSE IF IsObj(s) THEN UNION {IF k = "$ref" THEN {s} ELSE Refs(s.o[k]) : k \in Keys(s)}
           ELSE IF IsArr(s) THEN UNION {Refs(s.a[i]) : i \in 1..Len(s.a)} ELSE {}
Closed == stack = <<>> =>
    \A p \in points : LET s == Schema(prog, p.u, {}, <<>>) IN
        ~IsFail(s) => \A x \in Refs(s.ok) :
            IF "anon" \in DOMAIN x THEN \E q \in points : q.u = x.anon
            ELSE \E q \in points : GoText(P, q.toks) = Text(x.o["$ref"])
=============================================================================

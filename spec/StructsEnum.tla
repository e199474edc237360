---------------------------- MODULE StructsEnum -----------------------------
(***************************************************************************)
(* All programs of three structs S0, S1, S2, each embedding the next in some *)
(* way (the last possibly the first again), with fields whose names, tags    *)
(* and required options may clash at different depths.                       *)
(***************************************************************************)
EXTENDS Types, TLC, IOUtils, Json, SequencesExt

CONSTANT Big

P == "ex.com/a"
Fld(n, t, emb, jn, on, oo) ==
    [n |-> n, t |-> t, emb |-> emb, x |-> TRUE, tag |-> "", jn |-> jn, jo |-> <<>>, on |-> on, oo |-> oo]
Req == <<[k |-> "required", v |-> ""]>>
Inte == [k |-> "basic", b |-> "int64"]
Txt == [k |-> "basic", b |-> "string"]
Leaf(t) == {Fld("A", t, FALSE, "", "", <<>>), Fld("A", t, FALSE, "b", "", Req), Fld("B", t, FALSE, "b", "a", <<>>),
            Fld("B", t, FALSE, "", "", Req), Fld("A", t, FALSE, "", "-", Req)}
           \cup (IF Big THEN {Fld("A", t, FALSE, "-", "", Req), Fld("B", t, FALSE, "-", "a", <<>>)} ELSE {})
Named(n) == [k |-> "named", p |-> P, n |-> n]
Inl(v) == <<[k |-> "inline", v |-> v]>>
Low(n) == IF n = "S1" THEN "s1" ELSE "s2"
Emb(n) == LET T == {Named(n), [k |-> "ptr", t |-> Named(n)]} IN
    UNION {{Fld(n, t, TRUE, "", "", <<>>), Fld(n, t, TRUE, "", "", Inl("false")), Fld("E", t, FALSE, "", "", Inl("true"))}
           : t \in T}
    \cup {[Fld(Low(n), t, TRUE, "", "", <<>>) EXCEPT !.x = FALSE] : t \in {Named(Low(n)), [k |-> "ptr", t |-> Named(Low(n))]}}
    \cup (IF Big THEN {Fld(n, Named(n), TRUE, "A", "", <<>>), Fld(n, Named(n), TRUE, "-", "", <<>>),
                       Fld("E", Named(n), FALSE, "", "a", <<>>),
                       [Fld("e", Named(n), FALSE, "", "", Inl("true")) EXCEPT !.x = FALSE],
                       [Fld(Low(n), Named(Low(n)), TRUE, "", "", Inl("false")) EXCEPT !.x = FALSE],
                       [Fld(Low(n), Named(Low(n)), TRUE, "a", "", <<>>) EXCEPT !.x = FALSE]} ELSE {})
S(f) == [k |-> "struct", f |-> f]

Progs == {P :> [S0 |-> s0, S1 |-> s1, S2 |-> s2, s1 |-> Named("S1"), s2 |-> Named("S2")] :
            s0 \in {S(<<a, e>>) : a \in Leaf(Inte), e \in Emb("S1")} \cup {S(<<e, a>>) : a \in Leaf(Inte), e \in Emb("S1")},
            s1 \in {S(<<a, e>>) : a \in Leaf(Txt), e \in Emb("S2")} \cup {S(<<>>)},
            s2 \in {S(<<a>>) : a \in Leaf(Txt)}
                   \cup {S(<<a, Fld("S0", [k |-> "ptr", t |-> Named("S0")], TRUE, "", "", <<>>)>>) :
                         a \in {Fld("A", Txt, FALSE, "", "", <<>>), Fld("C", Txt, FALSE, "", "", Req)}}}

VARIABLE prog
Init == prog \in Progs
Next == UNCHANGED prog
Spec == Init /\ [][Next]_prog

(***************************************************************************)
(* The same by the depths at which names are declared.                        *)
(***************************************************************************)
RECURSIVE At0(_, _, _)
\* fields declared at exactly depth d below struct u, with the structs on the way
At0(u, d, path) ==
    IF u \in path THEN {}
    ELSE LET keep == {i \in 1..Len(u.f) : ~Ignored(u.f[i]) /\ (u.f[i].x \/ (u.f[i].emb /\ Inlined(prog, u.f[i])))}
             in == {i \in keep : Inlined(prog, u.f[i])}
         IN IF d = 1 THEN {u.f[i] : i \in keep \ in}
            ELSE UNION {At0(Struct(prog, u.f[i].t), d - 1, path \cup {u}) : i \in in}
NamesAt(u, d) == {Name(f) : f \in At0(u, d, {})}
AllNames(u) == UNION {NamesAt(u, d) : d \in 1..4}
Root == prog[P]["S0"]
Res == StructSchema(prog, Root)
Declared == Keys(Res.ok.o["properties"]) = AllNames(Root)
NameSet == IF HasKey(Res.ok, "properties") THEN Declared ELSE AllNames(Root) = {}
Once == HasKey(Res.ok, "required") =>
            LET q == Res.ok.o["required"].a IN
            /\ Len(q) = Cardinality(Elems(q))
            /\ \A i \in 1..Len(q) : \E n \in AllNames(Root) : q[i] = Str(n)
\* a required name is required by one of its outermost declarations, and only by those
ReqRight == LET q == IF HasKey(Res.ok, "required") THEN Elems(Res.ok.o["required"].a) ELSE {} IN
    \A n \in AllNames(Root) :
       LET d == CHOOSE d \in 1..4 : n \in NamesAt(Root, d) /\ \A e \in 1..(d - 1) : n \notin NamesAt(Root, e)
           F == {f \in At0(Root, d, {}) : Name(f) = n}
       IN /\ Str(n) \in q => \E f \in F : Flag(Options(f), "required")
          /\ (\A f \in F : Flag(Options(f), "required")) => Str(n) \in q
Sane == NameSet /\ Once /\ ReqRight

Dump == ndJsonSerialize(IOEnv.ENUM, SetToSeq(Progs))
DumpSpec == prog = 0 /\ Dump /\ [][Next]_prog
=============================================================================

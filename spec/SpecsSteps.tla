------------------------------ MODULE SpecsSteps ------------------------------
(***************************************************************************)
(* Collecting the specifications of a project as the code does: packages after  *)
(* the ones they import, each once, the files of their directories in any order, *)
(* references bound one by one; then the documents merged into one another in     *)
(* any order at all. Whatever the orders, exactly the files that should be are    *)
(* taken, and the end is the union of module Project, or failure.                *)
(***************************************************************************)
EXTENDS Project

CONSTANTS Projects, MergePolicy
VARIABLES pr, seen, open, taken, whole, failed, phase
vars == <<pr, seen, open, taken, whole, failed, phase>>

\* small scopes: packages r (the root), a, b, and what their directories hold
Ref(t) == Obj("$ref" :> Str(t))
F(n, d) == [name |-> n, doc |-> d]
D0 == ("openapi" :> Str("3"))
D1 == Obj(D0)
D2 == Obj(D0 @@ ("x" :> Obj("y" :> Num("1"))))
D3 == Obj(D0 @@ ("x" :> Obj("z" :> Ref("go://#/T"))))
D4 == Obj(D0 @@ ("x" :> Obj(("y" :> Num("2")) @@ ("w" :> Arr(<<Ref("go://q#/T"), Ref("#/x/y")>>)))))
D5 == Obj("x" :> Obj("y" :> Num("3")))       \* no specification
D6 == Obj(D0 @@ ("l" :> Arr(<<Num("1"), Ref("go://#/T/F")>>)) @@ ("x" :> Str("s")))
D7 == Obj(D0 @@ ("x" :> Obj("y" :> Str("1"))))   \* what D2 states, as a text
Dirs == {<<>>, <<F("oapi.yaml", D2)>>, <<F("oapi.json", D7)>>, <<F("oapi.json", D3)>>, <<F("oapi.yml", D4)>>, <<F("oapi.yaml", D6)>>,
         <<F("oapi.yaml", D1), F("oapi.json", D2)>>, <<F("oapi.yaml", D5), F("oapi.yml", D3)>>,
         <<F("openapi.yaml", D4)>>, <<[name |-> "oapi.json", bad |-> "{"]>>, <<[name |-> "oapi.txt", bad |-> "{"], F("oapi.json", D1)>>}
Imports == {[r |-> <<"a", "b">>, a |-> <<>>, b |-> <<>>], [r |-> <<"a">>, a |-> <<"b">>, b |-> <<>>], [r |-> <<"a", "b">>, a |-> <<"b">>, b |-> <<>>],
            [r |-> <<"b">>, a |-> <<"b">>, b |-> <<>>]}
Pk(n, i, fs) == [path |-> n, imports |-> i[n], files |-> fs, cmts |-> <<>>, broken |-> FALSE]
Project3(i, x, y, z) == [pkgs |-> <<Pk("r", i, x), Pk("a", i, y), Pk("b", i, z)>>, decls |-> NoKeys]
AllProjects == {Project3(i, x, y, z) : i \in Imports, x \in Dirs, y \in Dirs, z \in Dirs}
FewDirs == {<<>>, <<F("oapi.yaml", D2)>>, <<F("oapi.json", D7)>>, <<F("oapi.json", D3)>>, <<F("oapi.yml", D4)>>, <<F("oapi.yaml", D1), F("oapi.json", D2)>>}
FewProjects == {Project3(i, x, y, z) : i \in Imports, x \in FewDirs, y \in FewDirs, z \in Dirs}

Init == /\ pr \in Projects
        /\ seen = {} /\ open = {} /\ taken = {} /\ whole = EmptyObj /\ failed = FALSE /\ phase = "scan"

ImportsOf(p) == Elems(PkgOf(pr, p).imports)
\* packages that are next to be read: all they import has been
Wanted == Covered(pr, "r") \ seen
Read(p) == /\ phase = "scan" /\ open = {} /\ p \in Wanted /\ ImportsOf(p) \subseteq seen
           /\ seen' = seen \cup {p}
           /\ open' = {[pkg |-> p, file |-> f] : f \in Elems(PkgOf(pr, p).files)}
           /\ UNCHANGED <<taken, whole, failed, phase>>
Take(x) == /\ phase = "scan" /\ x \in open
           /\ open' = open \ {x}
           /\ IF Unreadable(x.file) THEN failed' = TRUE /\ taken' = taken
              ELSE /\ failed' = failed
                   /\ taken' = IF IsSpec(x.file) THEN taken \cup {[pkg |-> x.pkg, name |-> x.file.name, v |-> Bind(x.file.doc, x.pkg)]} ELSE taken
           /\ UNCHANGED <<seen, whole, phase>>
Turn == /\ phase = "scan" /\ open = {} /\ Wanted = {}
        /\ phase' = "merge" /\ open' = taken
        /\ UNCHANGED <<seen, taken, whole, failed>>
MergeIn(x) == /\ phase = "merge" /\ x \in open
              /\ open' = open \ {x}
              /\ LET m == MergeDocs(MergePolicy, whole, x.v) IN
                 IF IsFail(m) THEN failed' = TRUE /\ whole' = whole ELSE whole' = m.ok /\ failed' = failed
              /\ UNCHANGED <<seen, taken, phase>>
Done == failed \/ (phase = "merge" /\ open = {})
Next == /\ ~Done /\ UNCHANGED pr
        /\ (Turn \/ (\E p \in Wanted : Read(p)) \/ \E x \in open : Take(x) \/ MergeIn(x))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* what the collection ends in is what module Project specifies
Want == LET d == SpecsOf(pr, Covered(pr, "r")) IN IF IsFail(d) THEN Fail ELSE Union(d.ok)
Right == Done => (IF failed THEN IsFail(Want) ELSE Want = [ok |-> whole])
\* a file is taken iff it is a specification of a covered package
Found == (phase = "merge" /\ ~failed) =>
    {[pkg |-> x.pkg, name |-> x.name] : x \in taken} =
    {[pkg |-> y.pkg, name |-> y.name] : y \in
        {z \in [pkg : {"r", "a", "b"}, name : SpecNames] : z.pkg \in Covered(pr, "r") /\
            \E f \in Elems(PkgOf(pr, z.pkg).files) : f.name = z.name /\ "doc" \in DOMAIN f /\ HasKey(f.doc, "openapi")}}
\* nothing that was stated gets lost, at any moment
RECURSIVE Within(_, _)
Within(a, b) == IF IsObj(a) THEN IsObj(b) /\ \A k \in Keys(a) : HasKey(b, k) /\ Within(a.o[k], b.o[k]) ELSE a = b
Kept == (phase = "merge" /\ ~failed) => \A x \in taken \ open : Within(x.v, whole)
\* and nothing is invented
RECURSIVE LeavesOf(_)
LeavesOf(v) == IF IsObj(v) THEN UNION {{[l EXCEPT !.path = <<k>> \o @] : l \in LeavesOf(v.o[k])} : k \in Keys(v)}
               ELSE {[path |-> <<>>, v |-> v]}
Stated0 == LeavesOf(whole) \subseteq UNION {LeavesOf(x.v) : x \in taken}
\* no reference is left that means different things in different files
Local == \A x \in taken : \A t \in AllRefs(x.v) : ~HasPrefix(t, "go://#")
Ends == <>Done
=============================================================================

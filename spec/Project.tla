------------------------------- MODULE Project -------------------------------
(***************************************************************************)
(* A whole scan: from the packages of a project and its configuration to the    *)
(* document.                                                                  *)
(*                                                                         *)
(* A project pr has                                                         *)
(*   pkgs: sequence of packages [path, imports, files, cmts, broken]: paths of  *)
(*     the packages it imports, specification files [name, doc] or [name, bad],  *)
(*     comments, and whether its Go code has errors                           *)
(*   decls: the Go types of each package, as in module Types                   *)
(* and a configuration cf has                                                *)
(*   root: a document, what it states of the sections                          *)
(*   ops: sequence of [pat, op]      overrides: sequence of [ptr, v]            *)
(***************************************************************************)
EXTENDS Root, DefOps, Resolve, Cmds, Types

SpecNames == {"oapi.yaml", "oapi.yml", "oapi.json"}

(***************************************************************************)
(* Packages and their specifications.                                        *)
(***************************************************************************)
PkgPaths(pr) == {pr.pkgs[i].path : i \in 1..Len(pr.pkgs)}
PkgOf(pr, path) == CHOOSE x \in Elems(pr.pkgs) : x.path = path
\* packages which a scan of package root covers
Covered(pr, root) ==
    LET Imports(S) == UNION {Elems(PkgOf(pr, p).imports) : p \in S}
        RECURSIVE Grow(_)
        Grow(S) == LET T == S \cup Imports(S) IN IF T = S THEN S ELSE Grow(T)
    IN Grow({root})

IsSpecFile(f) == f.name \in SpecNames
Unreadable(f) == IsSpecFile(f) /\ "bad" \in DOMAIN f
IsSpec(f) == IsSpecFile(f) /\ "doc" \in DOMAIN f /\ IsObj(f.doc) /\ HasKey(f.doc, "openapi")

\* references of a file, package-local ones bound to its package
RECURSIVE Bind(_, _)
Bind(v, pkg) ==
    LET Bound(x) == LET p == ParsePtr(Text(x)) IN
                    IF IsFail(p) THEN x
                    ELSE Str(PtrText(IF p.ok.scheme = "go" /\ p.ok.pkg = "" THEN [p.ok EXCEPT !.pkg = pkg] ELSE p.ok))
    IN IF IsScalar(v) THEN v
       ELSE IF IsArr(v) THEN Arr([i \in 1..Len(v.a) |-> Bind(v.a[i], pkg)])
       ELSE Obj([k \in Keys(v) |-> IF k = "$ref" /\ IsStr(v.o[k]) THEN Bound(v.o[k]) ELSE Bind(v.o[k], pkg)])
BadRef(v) == \E x \in AllRefs(v) : IsFail(ParsePtr(x))

\* the specifications of a set of packages, as sequence of documents
SpecsOf(pr, S) ==
    LET pk == [i \in 1..Len(pr.pkgs) |->
                 LET p == pr.pkgs[i]
                     fs == IF p.path \in S THEN SelectSeq(p.files, IsSpec) ELSE <<>>
                 IN [j \in 1..Len(fs) |-> [v |-> Bind(fs[j].doc, p.path)]]]
        RECURSIVE All(_)
        All(i) == IF i > Len(pk) THEN <<>> ELSE pk[i] \o All(i + 1)
        q == All(1)
    IN IF \E p \in Elems(pr.pkgs) : p.path \in S /\ \E f \in Elems(p.files) : Unreadable(f) THEN Fail
       ELSE IF \E i \in 1..Len(q) : BadRef(q[i].v) THEN Fail
       ELSE [ok |-> [i \in 1..Len(q) |-> q[i].v]]

\* the union of the specifications
Union(docs) == MergeAll("same", docs)

(***************************************************************************)
(* What references denote.                                                   *)
(***************************************************************************)
\* structs without name are referred to by some pointer that addresses them, of
\* which one is as good as another; here they are numbered
RECURSIVE StructsIn(_)
StructsIn(t) == CASE t.k = "struct" -> {t} \cup UNION {StructsIn(t.f[i].t) : i \in 1..Len(t.f)}
                  [] t.k \in {"ptr", "slice", "array", "map"} -> StructsIn(t.t)
                  [] OTHER -> {}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Unnamed(D) == SeqOf(UNION {UNION {StructsIn(D[p][n]) : n \in DOMAIN D[p]} : p \in DOMAIN D})
UnnamedText(i) == "go://unnamed#/" \o Numeral(i)
RECURSIVE Pointed(_, _)
Pointed(q, v) ==
    IF "anon" \in DOMAIN v THEN Obj("$ref" :> Str(UnnamedText(CHOOSE i \in 1..Len(q) : q[i] = v.anon)))
    ELSE IF IsArr(v) THEN Arr([i \in 1..Len(v.a) |-> Pointed(q, v.a[i])])
    ELSE IF IsObj(v) THEN Obj([k \in Keys(v) |-> Pointed(q, v.o[k])])
    ELSE v

OverridesOf(cf) == [t \in {cf.overrides[i].ptr : i \in 1..Len(cf.overrides)} |->
                      (CHOOSE x \in Elems(cf.overrides) : x.ptr = t).v]
Denotes(D, q, S, over, t) ==
    IF t \in DOMAIN over THEN [ok |-> over[t]]
    ELSE LET p == ParsePtr(t)
             I == {i \in 1..Len(q) : UnnamedText(i) = t}
             s == IF I # {} THEN StructSchema(D, q[CHOOSE i \in I : TRUE])
                  ELSE IF IsFail(p) \/ p.ok.scheme # "go" \/ p.ok.pkg \notin S THEN Fail
                  ELSE Resolved(D, p.ok.pkg, p.ok.toks)
         IN IF IsFail(s) THEN s ELSE [ok |-> Pointed(q, s.ok)]

\* texts of the references of v that lead outside of the document
External(v) == LET ps == {ParsePtr(x) : x \in AllRefs(v)} IN {PtrText(p.ok) : p \in {q \in ps : ~IsFail(q) /\ q.ok.scheme # ""}}
EnvOf(D, S, over, doc) ==
    LET q == Unnamed(D)
        RECURSIVE Grow(_, _)
        Grow(env, todo) ==
            IF todo = {} THEN env
            ELSE LET new == [t \in todo |-> Denotes(D, q, S, over, t)]
                     all == new @@ env
                 IN Grow(all, UNION {IF IsFail(new[t]) THEN {} ELSE External(new[t].ok) : t \in todo} \ DOMAIN all)
    IN Grow([t \in {} |-> Fail], External(doc))

ExportsOf(pr, S) ==
    LET cm == [i \in 1..Len(pr.pkgs) |-> IF pr.pkgs[i].path \in S
                  THEN [j \in 1..Len(pr.pkgs[i].cmts) |-> [pkg |-> pr.pkgs[i].path, text |-> pr.pkgs[i].cmts[j]]] ELSE <<>>]
        RECURSIVE All(_)
        All(i) == IF i > Len(cm) THEN <<>> ELSE cm[i] \o All(i + 1)
        r == Exports(All(1))
    IN IF IsFail(r) THEN r
       ELSE [ok |-> [t \in {PtrText(r.ok[i].ptr) : i \in 1..Len(r.ok)} |->
                       (CHOOSE x \in Elems(r.ok) : PtrText(x.ptr) = t).name]]

(***************************************************************************)
(* The documents a scan may give: one, or more where the order of default        *)
(* operations matters; none if it fails.                                      *)
(***************************************************************************)
Scan(pr, root, cf) ==
    IF root \notin PkgPaths(pr) THEN {}
    ELSE LET S == Covered(pr, root)
             D == [p \in S \cap DOMAIN pr.decls |-> pr.decls[p]]
             docs == SpecsOf(pr, S)
             whole == IF IsFail(docs) THEN Fail ELSE Union(docs.ok)
             rooted == IF IsFail(whole) THEN Fail ELSE RootMerge(whole.ok, cf.root)
             exports == ExportsOf(pr, S)
             Given(d) == IF Len(cf.ops) < 2 THEN {ApplyAll(d, cf.ops)} ELSE Results(d, cf.ops)
             Final(d) == Resolve(EnvOf(D, S, OverridesOf(cf), d), exports.ok, d)
         IN IF (\E p \in S : PkgOf(pr, p).broken) \/ IsFail(rooted) \/ IsFail(exports) THEN {}
            ELSE LET rs == {Final(d) : d \in Given(rooted.ok)} IN {r.ok : r \in {x \in rs : ~IsFail(x)}}

(***************************************************************************)
(* Equality of documents: references as what they are, not as they are           *)
(* written, and required fields in any order.                                  *)
(***************************************************************************)
SamePtr(a, b) == LET p == ParsePtr(a)
                     q == ParsePtr(b)
                 IN IF IsFail(p) \/ IsFail(q) THEN a = b ELSE p.ok = q.ok
RECURSIVE Same(_, _)
Same(a, b) ==
    IF IsScalar(a) \/ IsScalar(b) THEN a = b
    ELSE IF IsArr(a) \/ IsArr(b) THEN
        IsArr(a) /\ IsArr(b) /\ Len(a.a) = Len(b.a) /\ \A i \in 1..Len(a.a) : Same(a.a[i], b.a[i])
    ELSE /\ Keys(a) = Keys(b)
         /\ \A k \in Keys(a) :
              LET x == a.o[k]
                  y == b.o[k]
              IN IF k = "$ref" /\ IsStr(x) /\ IsStr(y) THEN SamePtr(Text(x), Text(y))
                 ELSE IF k = "required" /\ IsArr(x) /\ IsArr(y) THEN
                    Len(x.a) = Len(y.a) /\ Elems(x.a) = Elems(y.a)
                 ELSE Same(x, y)
=============================================================================

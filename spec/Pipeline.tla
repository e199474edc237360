------------------------------- MODULE Pipeline -------------------------------
(***************************************************************************)
(* A whole run, stage by stage, each of which goes over hash maps in any order:    *)
(* the specifications are merged one into another, the sections of the              *)
(* configuration into the result, default operations given to the operations, the    *)
(* references replaced one by one and components defined, and the keys picked and      *)
(* put in order. Whatever the orders, a run ends in the same sequence of keys and        *)
(* values, or fails, as its input determines.                                     *)
(***************************************************************************)
EXTENDS Root, DefOps, Resolve, SequencesExt

CONSTANTS Worlds
VARIABLES w, stage, todo, doc, defs, text, failed
vars == <<w, stage, todo, doc, defs, text, failed>>

(***************************************************************************)
(* Worlds: [docs, cfg, ops, env, exports].                                    *)
(***************************************************************************)
Ref(t) == Obj("$ref" :> Str(t))
A == "go://p#/A"
B == "go://p#/B"
O3 == "openapi" :> Str("3")
PathsOf(v) == "paths" :> Obj("/a" :> Obj("get" :> v))
Docs1 == {Obj(O3 @@ PathsOf(Obj("x" :> Ref(A)))), Obj(O3 @@ ("x" :> Arr(<<Ref(B), Ref(A)>>)) @@ ("a" :> Null))}
Docs2 == {Obj(O3 @@ PathsOf(Obj("y" :> Ref(B))) @@ ("info" :> Obj("t" :> Num("1")))),
          Obj(O3 @@ ("paths" :> Obj(("/a" :> Obj("post" :> EmptyObj)) @@ ("/b" :> Obj("get" :> Obj("x" :> Ref(A))))))),
          Obj("paths" :> Num("1"))}
Docs3 == {Obj(O3 @@ ("components" :> Obj("schemas" :> Obj("L" :> Ref(A))))), Obj(O3 @@ ("x" :> Arr(<<Ref(B), Ref(A)>>)))}
Cfgs == {EmptyObj, Obj(("info" :> Obj(("t" :> Num("2")) @@ ("u" :> Ref(B)))) @@ ("components" :> Obj("schemas" :> Obj("M" :> Ref(B))))),
         Obj("components" :> Obj("schemas" :> Obj("L" :> Null)))}
D1 == [pat |-> "*", op |-> Obj(("x" :> Num("1")) @@ ("y" :> Obj("z" :> Ref(A))))]
D2 == [pat |-> "get:*", op |-> Obj(("x" :> Num("2")) @@ ("w" :> Num("2")))]
Ops == {<<>>, <<D1, D2>>}
Env1 == (A :> [ok |-> Obj(("is" :> Str("A")) @@ ("to" :> Ref(B)))]) @@ (B :> [ok |-> Obj(("is" :> Str("B")) @@ ("to" :> Arr(<<Ref(A)>>)))])
Env2 == (A :> [ok |-> Obj("is" :> Str("A"))]) @@ (B :> [ok |-> Ref(A)])
Env3 == (A :> [ok |-> Obj("is" :> Str("A"))]) @@ (B :> Fail)
Exports == {[t \in {} |-> ""], A :> "A", (A :> "A") @@ (B :> "B"), (A :> "L") @@ (B :> "B")}
Small == [docs : {<<a, b, c>> : a \in Docs1, b \in Docs2, c \in Docs3}, cfg : Cfgs, ops : Ops, env : {Env1, Env2, Env3}, exports : Exports]
D3 == [pat |-> "/b", op |-> Obj(("y" :> Num("3")) @@ ("x" :> Ref(B)))]
More == [docs : {<<a, b, c>> : a \in Docs1, b \in Docs2, c \in Docs3}, cfg : Cfgs, ops : Ops \cup {<<D3, D2, D1>>},
         env : {Env1, Env2, Env3, (A :> Fail) @@ (B :> [ok |-> Arr(<<Ref(B), Obj("y" :> Ref(A)), Ref(A)>>)]), (A :> [ok |-> Obj("y" :> Arr(<<Ref(A), Ref(B)>>))]) @@ (B :> [ok |-> Null])},
         exports : Exports \cup {(A :> "L") @@ (B :> "L")}]

(***************************************************************************)
(* Stages.                                                                  *)
(***************************************************************************)
Init == /\ w \in Worlds
        /\ stage = "merge" /\ todo = Elems(w.docs) /\ doc = EmptyObj /\ defs = {} /\ text = <<>> /\ failed = FALSE
Fails(r) == IF IsFail(r) THEN failed' = TRUE /\ doc' = doc ELSE failed' = FALSE /\ doc' = r.ok
Merge1(d) == /\ stage = "merge" /\ d \in todo
             /\ Fails(MergeDocs("same", doc, d))
             /\ todo' = todo \ {d} /\ UNCHANGED <<stage, defs, text>>
\* one section of the configuration
Root1(k) == /\ stage = "root" /\ k \in todo
            /\ Fails(RootMerge(doc, Obj([j \in {k} \cap Keys(w.cfg) |-> w.cfg.o[j]])))
            /\ todo' = todo \ {k} /\ UNCHANGED <<stage, defs, text>>
\* one operation; the patterns are gone through in their order
OpKey(i, q) == [i |-> i, q |-> q]
Op1(x) == /\ stage = "ops" /\ x \in todo /\ \A y \in todo : x.i <= y.i
          /\ doc' = Set(doc, x.q, MergeDocs("default", At(doc, x.q), w.ops[x.i].op).ok).ok
          /\ todo' = todo \ {x} /\ UNCHANGED <<stage, defs, text, failed>>
\* one reference of the document as it was given, at path p; those inside of
\* another one come first
RECURSIVE RefPlaces(_)
RefPlaces(v) ==
    IF IsScalar(v) THEN {}
    ELSE IF IsArr(v) THEN UNION {{<<Numeral(i - 1)>> \o p : p \in RefPlaces(v.a[i])} : i \in 1..Len(v.a)}
    ELSE (IF RefOf(v) # NoRef THEN {<<>>} ELSE {}) \cup UNION {{<<k>> \o p : p \in RefPlaces(v.o[k])} : k \in Keys(v)}
Ref1(p) == /\ stage = "refs" /\ p \in todo /\ ~\E q \in todo : Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p
           /\ LET v == At(doc, p)
                  e == Expand(w.env, w.exports, v, {})
              IN /\ IF IsFail(e) THEN failed' = TRUE /\ doc' = doc ELSE failed' = FALSE /\ doc' = Set(doc, p, e.ok).ok
                 /\ defs' = defs \cup Uses(w.env, w.exports, v, {})
           /\ todo' = todo \ {p} /\ UNCHANGED <<stage, text>>
\* one component, which may need others
Def1(t) == /\ stage = "defs" /\ t \in todo
           /\ LET c == Component(w.env, w.exports, t)
                  more == IF IsFail(c) THEN {} ELSE Uses(w.env, w.exports, w.env[t].ok, {}) \ defs
              IN /\ IF IsFail(c) \/ Exists(doc, Place(w.exports[t])) THEN failed' = TRUE /\ doc' = doc
                    ELSE failed' = FALSE /\ doc' = SetDoc(doc, Place(w.exports[t]), c.ok).ok
                 /\ defs' = defs \cup more
                 /\ todo' = (todo \ {t}) \cup more
           /\ UNCHANGED <<stage, text>>
First == <<"openapi", "info", "components", "paths">>
Others == <<"a", "x">>
Rank(k) == IF \E i \in 1..4 : First[i] = k THEN 10 + (CHOOSE i \in 1..4 : First[i] = k) ELSE CHOOSE i \in 1..2 : Others[i] = k
\* one key, put where it belongs
Key1(k) == /\ stage = "print" /\ k \in todo
           /\ LET n == Cardinality({i \in 1..Len(text) : Rank(text[i]) < Rank(k)})
              IN text' = SubSeq(text, 1, n) \o <<k>> \o SubSeq(text, n + 1, Len(text))
           /\ todo' = todo \ {k} /\ UNCHANGED <<stage, doc, defs, failed>>
Enter(s, set) == stage' = s /\ todo' = set /\ UNCHANGED <<doc, defs, text, failed>>
Turn == /\ todo = {} /\ stage # "end"
        /\ CASE stage = "merge" -> Enter("root", Sections)
             [] stage = "root" -> Enter("ops", UNION {{OpKey(i, q) : q \in {z \in Operations(doc) : Matches(w.ops[i].pat, z)}} : i \in 1..Len(w.ops)})
             [] stage = "ops" -> Enter("refs", RefPlaces(doc))
             [] stage = "refs" -> Enter("defs", defs)
             [] stage = "defs" -> Enter("print", Keys(doc))
             [] stage = "print" -> Enter("end", {})
Step == \/ \E x \in todo : Merge1(x) \/ Root1(x) \/ Op1(x) \/ Ref1(x) \/ Def1(x) \/ Key1(x)
Next == ~failed /\ (Step \/ Turn) /\ UNCHANGED w
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* What the input determines.                                                 *)
(***************************************************************************)
Result == LET m == MergeAll("same", w.docs)
              r == IF IsFail(m) THEN Fail ELSE RootMerge(m.ok, w.cfg)
          IN IF IsFail(r) THEN Fail ELSE Resolve(w.env, w.exports, ApplyAll(r.ok, w.ops))
Done == failed \/ stage = "end"
Determined == Done => (IF failed THEN IsFail(Result) ELSE Result = [ok |-> doc])
Written == (Done /\ ~failed) => /\ Elems(text) = Keys(doc) /\ Len(text) = Cardinality(Keys(doc))
                               /\ \A i, j \in 1..Len(text) : i < j => Rank(text[i]) < Rank(text[j])
Clear == (Done /\ ~failed) => NoExternal(doc)
Ends == <>Done
=============================================================================

------------------------------ MODULE RootSteps ------------------------------
(***************************************************************************)
(* Merging the root document as the code does it: section by section, the two  *)
(* sides one after another into a new document, and that over the              *)
(* specification. Whatever the order of the sections, it ends in the result of  *)
(* module Root; sections are never touched but in their turn, and a side that   *)
(* is absent changes nothing.                                                 *)
(***************************************************************************)
EXTENDS Root, SmallDocs

CONSTANTS Docs, Cfgs
VARIABLES doc0, cfg, doc, todo, cur, failed
vars == <<doc0, cfg, doc, todo, cur, failed>>

\* small scopes: a section of each policy, and keys that are none

Values1 == {Num("1"), Null, Arr(<<Num("2")>>), Obj([a |-> Num("1")]), Obj([a |-> Num("2"), b |-> EmptyObj])}
SectionDocs == {Obj(f) : f \in UNION {[q -> Values1] : q \in SUBSET {"info", "components", "servers", "openapi"}}}
Few == {v \in SectionDocs : Cardinality(Keys(v)) <= 2}
Fewer == {v \in Few : ~HasKey(v, "openapi")}
CfgVals == {Null, Arr(<<Num("3")>>), Obj([a |-> Num("3")]), Obj([b |-> Obj([a |-> Num("3")])])}
CfgDocs == {Obj(f) : f \in UNION {[q -> CfgVals] : q \in SUBSET {"info", "components", "servers"}}}

None == [none |-> TRUE]
Init == /\ doc0 \in Docs /\ cfg \in Cfgs
        /\ doc = doc0 /\ todo = {k \in Sections : HasKey(doc0, k) \/ HasKey(cfg, k)} /\ cur = None /\ failed = FALSE
Done == failed \/ (todo = {} /\ cur = None)

Skip(k) == ~States(doc, k) /\ ~States(cfg, k)
Begin(k) == /\ cur = None /\ k \in todo
            /\ todo' = todo \ {k}
            /\ cur' = IF Skip(k) THEN None ELSE [k |-> k, s |-> EmptyObj, left |-> <<"doc", "cfg">>]
            /\ UNCHANGED <<doc, failed>>
Side == /\ cur # None /\ cur.left # <<>>
        /\ LET v == IF cur.left[1] = "doc" THEN doc ELSE cfg
               r == IF States(v, cur.k) THEN MergeDocs(PolicyOf[cur.k], cur.s, Section(v, cur.k)) ELSE [ok |-> cur.s]
           IN IF IsFail(r) THEN failed' = TRUE /\ UNCHANGED cur
              ELSE failed' = FALSE /\ cur' = [cur EXCEPT !.s = r.ok, !.left = Tail(cur.left)]
        /\ UNCHANGED <<doc, todo>>
Write == /\ cur # None /\ cur.left = <<>>
         /\ doc' = MergeDocs("override", doc, cur.s).ok
         /\ cur' = None
         /\ UNCHANGED <<todo, failed>>
Next == /\ ~Done
        /\ \/ \E k \in todo : Begin(k)
           \/ Side
           \/ Write
        /\ UNCHANGED <<doc0, cfg>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Result == IF failed THEN Fail ELSE [ok |-> doc]
\* which section fails first depends on the order, not that one does
Right == Done => Result = RootMerge(doc0, cfg)
Untouched == \A k \in Keys(doc0) : (k \notin Sections \/ k \in todo) => HasKey(doc, k) /\ doc.o[k] = doc0.o[k]
\* spelled out for each policy
Winner == (Done /\ ~failed) => \A k \in Sections :
    /\ States(doc0, k) /\ ~States(cfg, k) => doc.o[k] = doc0.o[k]
    /\ ~States(doc0, k) /\ States(cfg, k) => doc.o[k] = cfg.o[k]
    /\ (States(doc0, k) /\ States(cfg, k) /\ ~(IsObj(doc0.o[k]) /\ IsObj(cfg.o[k]))) =>
            doc.o[k] = (IF PolicyOf[k] = "override" THEN cfg.o[k] ELSE doc0.o[k])
Ends == <>Done
=============================================================================

-------------------------------- MODULE Root ---------------------------------
(***************************************************************************)
(* Merging of the root document, which the configuration states, into the     *)
(* specification: a policy for each section.                                  *)
(***************************************************************************)
EXTENDS Merge

PolicyOf == [k \in {"info", "components", "paths", "externalDocs", "security", "servers", "tags"} |->
    CASE k = "info" -> "override" [] k = "components" -> "strict" [] OTHER -> "default"]
Sections == DOMAIN PolicyOf

\* null is no value
States(v, k) == HasKey(v, k) /\ ~IsNull(v.o[k])
Section(v, k) == IF States(v, k) THEN Obj(k :> v.o[k]) ELSE EmptyObj

MergedSection(doc, cfg, k) == MergeDocs(PolicyOf[k], Section(doc, k), Section(cfg, k))

RootMerge(doc, cfg) ==
    LET ks == {k \in Sections : States(doc, k) \/ States(cfg, k)}
        r == [k \in ks |-> MergedSection(doc, cfg, k)]
    IN IF \E k \in ks : IsFail(r[k]) THEN Fail
       ELSE [ok |-> Obj([k \in Keys(doc) \cup ks |-> IF k \in ks THEN r[k].ok.o[k] ELSE doc.o[k]])]
=============================================================================

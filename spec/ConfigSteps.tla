----------------------------- MODULE ConfigSteps ------------------------------
(***************************************************************************)
(* Finding the settings of a run as the code does: the configuration file, what  *)
(* it extends filled in key by key in any order, then each setting from the        *)
(* default on, overwritten by the configuration, and by the flag. Whatever of       *)
(* flags, file and extended file states a setting, it ends in the settings of        *)
(* module Cli, and these are the ones of the first source that states it.           *)
(***************************************************************************)
EXTENDS Cli

CONSTANTS Scenarios
VARIABLES sc, doc, todo, st, phase
vars == <<sc, doc, todo, st, phase>>

\* a scenario: for each setting and source the value stated, or ""
Sources == {"flag", "own", "base"}
SaidOf(k, s) == CASE k = "dir" -> (IF s = "flag" THEN "f" ELSE IF s = "own" THEN "../o" ELSE "/W/b")
               [] k = "format" -> (IF s = "flag" THEN "go" ELSE IF s = "own" THEN "yaml" ELSE "json")
               [] k = "output" -> (IF s = "flag" THEN "x/f.json" ELSE IF s = "own" THEN "o.json" ELSE "stderr")
Ks == {"dir", "format", "output"}
Points == {<<k, s>> : k \in Ks, s \in Sources}
\* which are stated; which config flag; sections both files state in part
Every == [said : SUBSET Points, config : {"", "c/cfg.yaml", "/W/c/cfg.yaml"}, ext : {"", "../e/base.json", "/W/e/base.json"}]
InfoOf(s) == IF s = "own" THEN Obj(("title" :> Str("own")) @@ ("contact" :> Obj("name" :> Str("own")))) ELSE
                             Obj(("title" :> Str("base")) @@ ("version" :> Str("base")) @@ ("contact" :> Obj(("name" :> Str("base")) @@ ("url" :> Str("base")))))
DocOf(x, s) == Obj(("info" :> InfoOf(s)) @@ [k \in {j \in Ks : <<j, s>> \in x.said} |-> Str(SaidOf(k, s))]
                   @@ (IF s = "own" /\ x.ext # "" THEN "extends" :> Str(x.ext) ELSE NoKeys))
Case(x) == [cwd |-> "/W", flags |-> ("x" :> "") @@ ("config" :> x.config) @@ [k \in {j \in Ks : <<j, "flag">> \in x.said} |-> SaidOf(k, "flag")],
            configs |-> <<[path |-> "/W/c/cfg.yaml", doc |-> DocOf(x, "own")], [path |-> "/W/e/base.json", doc |-> DocOf(x, "base")]>>]

C == Case(sc)
BaseDoc == DocOf(sc, "base")
Init == /\ sc \in Scenarios
        /\ doc = (IF sc.config = "" THEN EmptyObj ELSE DocOf(sc, "own"))
        /\ todo = (IF sc.config = "" \/ sc.ext = "" THEN {} ELSE Keys(BaseDoc))
        /\ st = [dir |-> "/W", format |-> "json:pretty", output |-> "stdout"]
        /\ phase = "extend"
\* one key of the extended file
Extend(k) == /\ phase = "extend" /\ k \in todo
             /\ todo' = todo \ {k}
             /\ doc' = (IF ~HasKey(doc, k) THEN Put(doc, k, BaseDoc.o[k])
                        ELSE IF IsObj(doc.o[k]) /\ IsObj(BaseDoc.o[k]) THEN Put(doc, k, MergeDocs("default", doc.o[k], BaseDoc.o[k]).ok)
                        ELSE doc)
             /\ UNCHANGED <<sc, st, phase>>
Ready == phase = "extend" /\ todo = {} /\ phase' = "dir" /\ UNCHANGED <<sc, doc, todo, st>>
\* each setting in its turn, as output may be relative to dir
Place0(k, s, base) == IF k = "format" \/ (k = "output" /\ s \in Std) THEN s ELSE Abs(s, base)
Later == [dir |-> "format", format |-> "output", output |-> "end"]
Base(k) == IF k = "dir" THEN "/W/c" ELSE st.dir
Setting(k) == /\ phase = k
              /\ LET file == IF Stated(doc, k) # "" THEN Place0(k, Stated(doc, k), Base(k)) ELSE st[k]
                 IN st' = [st EXCEPT ![k] = IF Given(C.flags, k) THEN Place0(k, C.flags[k], "/W") ELSE file]
              /\ phase' = Later[k]
              /\ UNCHANGED <<sc, doc, todo>>
Next == (\E k \in todo : Extend(k)) \/ Ready \/ \E k \in Ks : Setting(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == phase = "end"
Right == Done => LET w == Settings(C).ok IN st = [dir |-> w.dir, format |-> w.format, output |-> w.output] /\ doc = w.doc
\* the first source that states it
Source(k) == IF <<k, "flag">> \in sc.said THEN "flag"
             ELSE IF sc.config = "" THEN "default"
             ELSE IF <<k, "own">> \in sc.said THEN "own"
             ELSE IF sc.ext # "" /\ <<k, "base">> \in sc.said THEN "base" ELSE "default"
Winner == Done =>
    /\ st.format = (CASE Source("format") = "flag" -> "go" [] Source("format") = "own" -> "yaml" [] Source("format") = "base" -> "json"
                      [] OTHER -> "json:pretty")
    /\ st.dir = (CASE Source("dir") = "flag" -> "/W/f" [] Source("dir") = "own" -> "/W/o" [] Source("dir") = "base" -> "/W/b" [] OTHER -> "/W")
    /\ st.output = (CASE Source("output") = "flag" -> "/W/x/f.json" [] Source("output") = "own" -> st.dir \o "/o.json"
                      [] Source("output") = "base" -> "stderr" [] OTHER -> "stdout")
\* sections object by object
ByObject == (Done /\ sc.config # "") =>
    /\ doc.o["info"].o["title"] = Str("own") /\ doc.o["info"].o["contact"].o["name"] = Str("own")
    /\ (sc.ext # "") = HasKey(doc.o["info"], "version")
    /\ (sc.ext # "") = HasKey(doc.o["info"].o["contact"], "url")
Ends == <>Done
=============================================================================

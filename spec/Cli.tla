--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* A run of the command: its settings, what it writes and where.               *)
(*                                                                         *)
(* A run c has                                                              *)
(*   cwd: working directory                                                 *)
(*   flags: [config, dir, format, output], those that are given, and bad if     *)
(*     the command line is not valid                                          *)
(*   configs: sequence of configuration files [path, doc] or [path, bad]         *)
(*   dirs: sequence of [path, pkg], the directories of packages                  *)
(*   pr: the project                                                         *)
(*   before: sequence of [path, state], which may be the output                  *)
(* Paths are texts; absolute ones begin with "/".                               *)
(***************************************************************************)
EXTENDS Project

(***************************************************************************)
(* Paths.                                                                   *)
(***************************************************************************)
IsAbs(s) == HasPrefix(s, "/")
RECURSIVE CleanSegs(_, _)
CleanSegs(done, q) ==
    IF q = <<>> THEN done
    ELSE CASE q[1] \in {"", "."} -> CleanSegs(done, Tail(q))
           [] q[1] = ".." -> CleanSegs(IF done = <<>> THEN done ELSE SubSeq(done, 1, Len(done) - 1), Tail(q))
           [] OTHER -> CleanSegs(Append(done, q[1]), Tail(q))
RECURSIVE JoinSegs(_)
JoinSegs(q) == IF q = <<>> THEN "" ELSE "/" \o q[1] \o JoinSegs(Tail(q))
Clean(s) == LET q == CleanSegs(<<>>, SplitAt(s, "/")) IN IF q = <<>> THEN "/" ELSE JoinSegs(q)
Abs(s, base) == IF IsAbs(s) THEN Clean(s) ELSE Clean(base \o "/" \o s)
DirOf(s) == LET q == CleanSegs(<<>>, SplitAt(s, "/")) IN
            IF Len(q) < 2 THEN "/" ELSE JoinSegs(SubSeq(q, 1, Len(q) - 1))

(***************************************************************************)
(* Settings.                                                                *)
(***************************************************************************)
Given(f, k) == k \in DOMAIN f /\ f[k] # ""
ConfigAt(c, path) ==
    LET S == {x \in Elems(c.configs) : x.path = path} IN
    IF S = {} THEN Fail
    ELSE LET x == CHOOSE x \in S : TRUE IN IF "bad" \in DOMAIN x THEN Fail ELSE [ok |-> x.doc]

NoConfig == [doc |-> EmptyObj, dir |-> "/"]
\* the configuration with what it extends, and its directory
ConfigOf(c) ==
    IF ~Given(c.flags, "config") THEN [ok |-> NoConfig]
    ELSE LET path == Abs(c.flags["config"], c.cwd)
             own == ConfigAt(c, path)
             ext == IF IsFail(own) \/ ~(HasKey(own.ok, "extends") /\ IsStr(own.ok.o["extends"])) THEN ""
                    ELSE Text(own.ok.o["extends"])
             base == IF ext = "" THEN [ok |-> EmptyObj] ELSE ConfigAt(c, Abs(ext, DirOf(path)))
         IN IF IsFail(own) \/ IsFail(base) THEN Fail
            ELSE [ok |-> [doc |-> MergeDocs("default", own.ok, base.ok).ok, dir |-> DirOf(path)]]

\* setting k of a configuration, "" if it is not stated
Stated(doc, k) == IF HasKey(doc, k) /\ IsStr(doc.o[k]) THEN Text(doc.o[k]) ELSE ""

Std == {"stdout", "stderr"}
Settings(c) ==
    LET cf == ConfigOf(c)
        doc == cf.ok.doc
        dir == IF Given(c.flags, "dir") THEN Abs(c.flags["dir"], c.cwd)
               ELSE IF Stated(doc, "dir") # "" THEN Abs(Stated(doc, "dir"), cf.ok.dir)
               ELSE Clean(c.cwd)
        output == IF Given(c.flags, "output") THEN
                    IF c.flags["output"] \in Std THEN c.flags["output"] ELSE Abs(c.flags["output"], c.cwd)
                  ELSE IF Stated(doc, "output") # "" THEN
                    IF Stated(doc, "output") \in Std THEN Stated(doc, "output") ELSE Abs(Stated(doc, "output"), dir)
                  ELSE "stdout"
        format == IF Given(c.flags, "format") THEN c.flags["format"]
                  ELSE IF Stated(doc, "format") # "" THEN Stated(doc, "format")
                  ELSE "json:pretty"
    IN IF IsFail(cf) THEN Fail
       ELSE [ok |-> [dir |-> dir, output |-> output, format |-> format, doc |-> doc]]

RootSections == {"info", "servers", "components", "security", "tags", "externalDocs"}
FlagFormats == {"json", "yaml", "yml", "json:pretty", "go"}
Formats == FlagFormats
\* what the configuration states for the scan; maps have an order of their own
ScanConfig(doc, order) ==
    LET Map(k) == IF HasKey(doc, k) THEN doc.o[k] ELSE EmptyObj
        Listed(k) == SelectSeq(order, LAMBDA x : x \in Keys(Map(k)))
        ops == Listed("operations")
        ovr == Listed("overrides")
    IN [root |-> Obj([k \in Keys(doc) \cap RootSections |-> doc.o[k]]),
        ops |-> [i \in 1..Len(ops) |-> [pat |-> ops[i], op |-> Map("operations").o[ops[i]]]],
        overrides |-> [i \in 1..Len(ovr) |-> [ptr |-> ovr[i], v |-> Map("overrides").o[ovr[i]]]]]

PackageIn(c, dir) == LET S == {x \in Elems(c.dirs) : x.path = dir} IN
                     IF S = {} THEN "" ELSE (CHOOSE x \in S : TRUE).pkg

(***************************************************************************)
(* The run: [ok |-> [docs, output, format]] or failure.                         *)
(***************************************************************************)
Full(c, output) == "full" \in DOMAIN c /\ c.full = output     \* of stdout or stderr: a device which takes nothing
Writable(c, output) == (output \in Std /\ ~Full(c, output)) \/ \E x \in Elems(c.before) : x.path = output /\ x.state \in {"absent", "file"}

Run(c) ==
    LET st == Settings(c)
        badflags == "bad" \in DOMAIN c.flags \/ (Given(c.flags, "format") /\ c.flags["format"] \notin FlagFormats)
        pkg == IF IsFail(st) THEN "" ELSE PackageIn(c, st.ok.dir)
        docs == IF pkg = "" THEN {} ELSE Scan(c.pr, pkg, ScanConfig(st.ok.doc, c.order))
    IN IF badflags \/ IsFail(st) \/ docs = {} THEN Fail
       ELSE IF st.ok.format \notin Formats \/ ~Writable(c, st.ok.output) THEN Fail
       ELSE [ok |-> [docs |-> docs, output |-> st.ok.output, format |-> st.ok.format]]

(***************************************************************************)
(* Texts. A text t is what can be found in it: t.as, for each format that it      *)
(* is of, the document and its top level keys in order; t.empty.               *)
(***************************************************************************)
First == <<"openapi", "info", "components", "paths">>
InOrder(top) == \A i, j \in 1..Len(First) : i < j =>
    \A m, n \in 1..Len(top) : (top[m] = First[i] /\ top[n] = First[j]) => m < n
FormatOf(f) == IF f = "yml" THEN "yaml" ELSE f
IsText(t, docs, format) ==
    /\ FormatOf(format) \in DOMAIN t.as
    /\ LET x == t.as[FormatOf(format)] IN
       /\ \E d \in docs : Same(d, x.doc)
       /\ InOrder(x.top)
IsEmptyText(t) == "empty" \in DOMAIN t
\* messages may look like something
NoDocument(t) == \A f \in DOMAIN t.as : Keys(t.as[f].doc) \cap ({"paths"} \cup Elems(First)) = {}

(***************************************************************************)
(* What may be observed of a run: r has the exit status, stdout, stderr, and     *)
(* files, a sequence of [path, now, text]: those that may be the output and        *)
(* those that changed; now is same, new or changed.                                *)
(***************************************************************************)
Good(c, w, r) ==
    /\ r.exit = 0
    /\ IF w.output = "stdout" THEN IsText(r.stdout, w.docs, w.format) ELSE IsEmptyText(r.stdout)
    /\ IF w.output = "stderr" THEN IsText(r.stderr, w.docs, w.format)
       ELSE "log" \in DOMAIN c \/ IsEmptyText(r.stderr)
    /\ \A i \in 1..Len(r.files) :
         LET f == r.files[i] IN
         IF f.path = w.output THEN "text" \in DOMAIN f /\ IsText(f.text, w.docs, w.format)
         ELSE f.now = "same"
Nothing0(c, r) ==
    /\ r.exit # 0
    /\ IsEmptyText(r.stdout) /\ NoDocument(r.stderr)
    /\ \A i \in 1..Len(r.files) : r.files[i].now = "same"
\* paths which are none: such a document may be refused
Malformed(d) == /\ HasKey(d, "paths")
                /\ \/ ~IsObj(d.o["paths"])
                   \/ \E p \in Keys(d.o["paths"]) : ~IsObj(d.o["paths"].o[p])
Observed(c, r) ==
    LET w == Run(c) IN
    IF IsFail(w) THEN Nothing0(c, r)
    ELSE Good(c, w.ok, r) \/ ((\E d \in w.ok.docs : Malformed(d)) /\ Nothing0(c, r))
=============================================================================

------------------------------ MODULE LibTrace --------------------------------
(***************************************************************************)
(* Recorded histories of calls of the library in one process. A case c has        *)
(*   cwd, places: for each place the versions of its files [pr, dirs, order],        *)
(*   prims: options, [k: "dir", path], [k: "root" or ..., doc], or others,             *)
(*   steps: [do, n, ...] as in LibSteps, where a scan lists its options by number.       *)
(* A result has its text, the digest of it (sum), that of the same bytes at the end (kept),     *)
(* and that of the document formatted again at the end (later).                             *)
(* A later option takes the place of an earlier one of its kind.                          *)
(***************************************************************************)
EXTENDS Cli, TraceLoop

Indices(c, what) == {i \in 1..Len(c.steps) : c.steps[i].do = what}
BeginOf(c, n) == CHOOSE i \in Indices(c, "begin") : c.steps[i].n = n
Cancelled(c, n) == \E i \in Indices(c, "cancel") : c.steps[i].n = n

\* the last option of a kind that a call gives, 0 if there is none
LastOf(c, s, k) == LET S == {j \in 1..Len(s.opts) : c.prims[s.opts[j]].k = k} IN
                   IF S = {} THEN 0 ELSE s.opts[CHOOSE j \in S : \A m \in S : m <= j]
Part0(c, s, k) == LET j == LastOf(c, s, k) IN IF j = 0 THEN EmptyObj ELSE c.prims[j].doc
ConfigDoc(c, s) ==
    LET root == Part0(c, s, "root")
        ops == Part0(c, s, "operations")
        ovr == Part0(c, s, "overrides")
    IN Obj([k \in (Keys(root) \cap RootSections) \cup {"operations", "overrides"} |->
              CASE k = "operations" -> IF HasKey(ops, k) THEN ops.o[k] ELSE EmptyObj
                [] k = "overrides" -> IF HasKey(ovr, k) THEN ovr.o[k] ELSE EmptyObj
                [] OTHER -> root.o[k]])
ScanDir(c, s) == LET j == LastOf(c, s, "dir") IN IF j = 0 THEN Clean(c.cwd) ELSE Abs(c.prims[j].path, c.cwd)
BadOption(c, s) == LastOf(c, s, "error") > 0

\* the place of a directory, and the version of its files at a step
PlaceOf(c, dir) == LET S == {p \in 1..Len(c.places) : HasPrefix(dir, "/W/p" \o ToString(p) \o "/")} IN
                   IF S = {} THEN 0 ELSE CHOOSE p \in S : TRUE
VersionAt(c, p, i) == LET S == {j \in Indices(c, "put") : j < i /\ c.steps[j].place = p} IN
                      c.steps[CHOOSE j \in S : \A m \in S : m <= j].n
Asked(c, i) == LET s == c.steps[i]
                   p == PlaceOf(c, ScanDir(c, s))
               IN <<ScanDir(c, s), IF p = 0 THEN 0 ELSE VersionAt(c, p, i),
                    LastOf(c, s, "root"), LastOf(c, s, "operations"), LastOf(c, s, "overrides"), BadOption(c, s)>>

\* the documents that the scan which begins at step i may give; none: it has to fail
Docs(c, i) ==
    LET s == c.steps[i]
        dir == ScanDir(c, s)
        p == PlaceOf(c, dir)
        w == c.places[p][VersionAt(c, p, i)]
        pkg == IF p = 0 THEN "" ELSE PackageIn(w, dir)
    IN IF BadOption(c, s) \/ s.early = "yes" \/ pkg = "" THEN {}
       ELSE Scan(w.pr, pkg, ScanConfig(ConfigDoc(c, s), c.order))

Failed(r) == "err" \in DOMAIN r
ScanAccepts(c, i, r) ==
    LET s == c.steps[i]
        docs == Docs(c, i)
    IN \/ Failed(r) /\ (docs = {} \/ Cancelled(c, s.n) \/ \E d \in docs : Malformed(d))
       \/ /\ docs # {} /\ "ok" \in DOMAIN r
          /\ IsText(r.text, docs, "json")
          /\ r.later = r.sum /\ r.kept = r.sum
FormatAccepts(c, s, r) ==
    LET of == c.out.results[s.of] IN
    IF Failed(of) THEN "skip" \in DOMAIN r
    ELSE IF s.fmt \notin Formats THEN Failed(r)
    ELSE "ok" \in DOMAIN r /\ r.kept = r.sum /\ IsText(r.text, {of.text.as["json"].doc}, s.fmt)
CallAccepts(c, i) == LET s == c.steps[i]
                         r == c.out.results[s.n]
                     IN IF s.kind = "scan" THEN ScanAccepts(c, i, r) ELSE FormatAccepts(c, s, r)
\* calls which ask the same get the same bytes
Alike(c, i, j) == LET s == c.steps[i]
                      t == c.steps[j]
                  IN s.kind = t.kind /\ IF s.kind = "scan" THEN Asked(c, i) = Asked(c, j)
                                        ELSE s.fmt = t.fmt /\ (s.of = t.of \/ Asked(c, BeginOf(c, s.of)) = Asked(c, BeginOf(c, t.of)))
SameSums(c) == LET B == {i \in Indices(c, "begin") : "sum" \in DOMAIN c.out.results[c.steps[i].n]} IN
    \A i, j \in B : i < j /\ Alike(c, i, j) => c.out.results[c.steps[i].n].sum = c.out.results[c.steps[j].n].sum
LibAccepts(c) == /\ \A i \in Indices(c, "begin") : CallAccepts(c, i)
                 /\ SameSums(c)
                 /\ c.out.options = "same" /\ c.out.files = "same"
=============================================================================

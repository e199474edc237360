#!/usr/bin/env python3
"""Weakens each machine of the specification in one place and checks that TLC reports a
violation of what is checked of it. With arguments: only modules of these names."""
import os, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import core

PH = {"Handles": '{"p", "q"}', "Toks": '{"a", "~/", ""}', "MaxLen": "3", "MaxOps": "3"}
RC = {"Threads": '{"t1", "t2"}', "Patterns": '{"/a", "/{id}", "BAD"}', "Routes": '{"/a", "/b"}', "Calls": "2", "Unlocked": "FALSE", "Record": "FALSE"}
MS = {"DestDocs": "<- Docs1", "SrcDocs": "<- Docs1", "Pols": '{"strict", "default", "override", "same"}'}
MN = dict(MS, DestDocs="<- Nested", SrcDocs="<- Nested")
RS = {"PatParts": '{"a", "/", "*", "{id}", "."}', "PathChars": '{"a", "/", "."}', "PatLen": "3", "PathLen": "3"}
RE = {"Graphs": "<- SomeGraphs", "DocRefs": "<- FewDocs", "ExportSets": "<- AllExports"}
EN = {"Types": "<- SmallTypes", "Overs": "<- SmallOvers", "Starts": "<- SmallStarts"}
RO = {"Docs": "<- Few", "Cfgs": "<- CfgDocs"}
OP = {"Docs": "<- SomeDocs", "OpLists": "<- SomeOps"}
SP = {"Projects": "<- FewProjects", "MergePolicy": '"same"'}
PI = {"Worlds": "<- Small"}
FR = {"Handles": '{"p", "q", "r"}', "Toks": '{"a", "b"}', "MaxLen": "2", "MaxOps": "4", "Capped": "TRUE"}
TW = {"Shapes": '{"int", "A", "B", "C", "sliceB", "two"}', "MaxToks": "3"}
KO = {"Others": "<- OtherKeys", "List": "<- FirstKeys"}
CF = {"Scenarios": "<- Every"}
LB = {"Places": "{1, 2}", "Versions": "{1, 2, 3}", "BadVersion": "3", "Options": "{1, 2}", "Fmts": '{"json", "bad"}', "BadFmt": '"bad"', "MaxCalls": "2",
      "MaxActive": "2", "MaxPuts": "1", "Cancels": "TRUE", "Record": "FALSE"}
CL = {"MaxRuns": "2", "Signals": "TRUE", "Emit": "FALSE"}
CO = {"Handles": '{"p", "q"}', "InitValues": "<- SmallValues", "SetPaths": "<- SmallPaths", "MaxOps": "3"}
DP = {"Chars": '{".", "~", "0", "1", "a"}', "KeyLen": "2", "PathLen": "2"}
PT = {"Chars": '{"~", "/", "0", "1", "%", "a"}', "TokLen": "2", "FragLen": "2"}
CE = {"Starts": '{"//openapi:schema", "//openapi", "//openapi:root", "// openapi:schema"}',
      "Args": '{"A", "T/F", "", "#/T", "go://ex.com/r#/T"}', "MaxArgs": "2"}

# module, constants, invariants, properties, file, text, replacement, what is weakened
M = [
 ("MergeSteps", MS, ["Confluent"], [], "MergeSteps", 'dest\' = IF pol = "override" THEN Set(dest, p, v).ok ELSE dest', "dest' = dest", "override keeps the destination"),
 ("MergeSteps", MN, ["Confluent"], [], "MergeSteps", 'Append(rest, Frame(p, Keys(v)))', 'rest', "objects are not descended into"),
 ("MergeSteps", MN, ["Kept"], [], "MergeSteps", "/\\ stack' = Append(rest, Frame(p, Keys(v)))\n        /\\ UNCHANGED <<dest, failed>>", "/\\ stack' = Append(rest, Frame(p, {})) /\\ dest' = Set(dest, p, v).ok\n        /\\ UNCHANGED failed", "objects replace objects"),
 ("RouteSteps", RS, ["Sound"], [], "RouteSteps", ' # "/"', ' # ""', "variables stand for /"),
 ("RouteSteps", RS, ["Sound"], [], "RouteSteps", '(pat[i] = "{}" /\\ in)', 'pat[i] = "{}"', "variables stand for nothing"),
 ("RouteSteps", RS, ["Complete", "Onward"], [], "RouteSteps", 'i <= Len(pat) /\\ (pat[i] = "**" \\/', 'i <= Len(pat) /\\ ((pat[i] = "**" /\\ in) \\/', "stars do not stand for nothing"),
 ("RouteCache", dict(RC, Unlocked="TRUE"), ["Exclusive"], [], "", "", "", "no lock"),
 ("RouteCache", RC, ["CacheRight"], [], "RouteCache", "IF IsFail(r) THEN cache ELSE", "IF IsFail(r) THEN (call[t].pat :> <<>>) @@ cache ELSE", "a failed pattern is kept"),
 ("RouteCache", RC, ["Correct"], ["AllReturn"], "RouteCache", 'IF res[t] = "err" THEN "done"', 'IF res[t] = "err" THEN "lock"', "failed calls try again"),
 ("RouteCache", RC, [], ["AllReturn"], "RouteCache", "lock' = lock \\ {t}", 'lock\' = IF res[t] = "err" THEN lock ELSE lock \\ {t}', "an error leaves the lock held"),
 ("ResolveSteps", RE, ["Final"], [], "ResolveSteps", "\\/ \\A j \\in (i + 1)..Len(stack) : stack[j].ptr \\notin DOMAIN exports", "\\/ TRUE", "components depend on where they are first needed"),
 ("ResolveSteps", RE, ["Final"], [], "ResolveSteps", "IF Top.ptr \\notin defs /\\ Exists(doc, Place(exports[Top.ptr])) THEN", "IF FALSE THEN", "components overwrite"),
 ("ResolveSteps", RE, ["Final"], [], "ResolveSteps", "THEN MkLocal(v, t) ELSE EmptyObj", "THEN MkLocal(v, t) ELSE v", "a recursive reference stays"),
 ("ResolveSteps", dict(RE, Graphs="<- Cycle"), ["Shallow"], [], "ResolveSteps", "OnPath(t) == \\E", "OnPath(t) == FALSE /\\ \\E", "recursion is not noticed"),
 ("EnvSteps", EN, ["Replaced"], [], "EnvSteps", "Denoted(t) == IF t \\in DOMAIN over THEN [ok |-> over[t]] ELSE IF t \\in DOMAIN types THEN [ok |-> types[t]]",
   "Denoted(t) == IF t \\in DOMAIN types THEN [ok |-> types[t]] ELSE IF t \\in DOMAIN over THEN [ok |-> over[t]]", "types come before overrides"),
 ("EnvSteps", EN, ["Exact"], [], "EnvSteps", "ELSE AllRefs(Denoted(t).ok))", "ELSE IF t \\in DOMAIN over THEN {} ELSE AllRefs(Denoted(t).ok))", "what overrides refer to is not looked for"),
 ("RootSteps", RO, ["Right"], [], "RootSteps", '<<"doc", "cfg">>', '<<"cfg", "doc">>', "the wrong side comes first"),
 ("RootSteps", RO, ["Untouched"], [], "RootSteps", "MergeDocs(\"override\", doc, cur.s).ok", "cur.s", "the section becomes the document"),
 ("OpsSteps", OP, ["Sound", "Grows", "Right"], [], "OpsSteps", 'MergeDocs("default", At(doc, q)', 'MergeDocs("override", At(doc, q)', "default operations override"),
 ("OpsSteps", OP, ["Sound"], [], "OpsSteps", "{q \\in Operations(doc0) : Matches(ops[n].pat, q)}", "Operations(doc0)", "patterns do not matter"),
 ("SpecsSteps", dict(SP, MergePolicy='"default"'), ["Right"], [], "Project", 'MergeAll("same"', 'MergeAll("default"', "differences are ignored"),
 ("SpecsSteps", SP, ["Local"], [], "SpecsSteps", "v |-> Bind(x.file.doc, x.pkg)", "v |-> x.file.doc", "references are not bound"),
 ("SpecsSteps", SP, ["Found"], [], "SpecsSteps", "IF IsSpec(x.file) THEN", 'IF IsSpec(x.file) /\\ x.file.name # "oapi.yml" THEN', "a name is not looked for"),
 ("SpecsSteps", SP, ["Right", "Kept"], [], "SpecsSteps", "f \\in Elems(PkgOf(pr, p).files)}", "f \\in IF p = \"b\" THEN {} ELSE Elems(PkgOf(pr, p).files)}", "a package is passed over"),
 ("PkgScanSteps", {"N": "3"}, ["Sofar"], [], "PkgScanSteps", "q \\in seen \\cup std", "q \\in std", "packages are visited again"),
 ("PkgScanSteps", {"N": "3"}, ["Right"], [], "PkgScanSteps", "THEN errs \\cup {Top.p}", "THEN {Top.p}", "only the last error is kept"),
 ("PkgScanSteps", {"N": "3"}, ["Sofar"], [], "PkgScanSteps", "Scan == /\\ stack # <<>> /\\ Top.todo = {}", "Scan == /\\ stack # <<>>", "packages come before what they import"),
 ("ConfigSteps", CF, ["Winner", "Right"], [], "ConfigSteps", "IF Given(C.flags, k) THEN", 'IF Given(C.flags, k) /\\ Stated(doc, k) = "" THEN', "the file wins over flags"),
 ("ConfigSteps", CF, ["ByObject"], [], "ConfigSteps", 'Put(doc, k, MergeDocs("default", doc.o[k], BaseDoc.o[k]).ok)', "doc", "sections are not merged"),
 ("Pipeline", PI, ["Determined"], [], "Pipeline", "/\\ x \\in todo /\\ \\A y \\in todo : x.i <= y.i", "/\\ x \\in todo", "overlapping operations come in any order"),
 ("Pipeline", PI, ["Determined"], [], "Pipeline", 'Fails(MergeDocs("same", doc, d))', 'Fails(MergeDocs("override", doc, d))', "the last document wins"),
 ("Fragments", dict(FR, Capped="FALSE"), ["Refines"], [], "", "", "", "slices are extended behind their end"),
 ("TypesWalk", TW, ["Complete", "Closed"], [], "TypesWalk", "IF i > Len(B) THEN [k", "IF i > Len(B) \\/ i > 1 THEN [k", "only the first field is followed"),
 ("TypesWalk", TW, ["Once"], [], "TypesWalk", "known == it.own /\\", "known == FALSE /\\", "types are walked again wherever they are met"),
 ("TypesWalk", TW, ["Closed"], [], "TypesWalk", 'IF B[i].t.k = "named" THEN', "IF FALSE THEN", "named types found on the way are not registered"),
 ("KeyOrderMC", KO, ["InList"], [], "KeyOrder", "Rank(k) == IF k \\in Listed", "Rank(k) == IF k \\in {}", "the list is ignored"),
 ("CliSteps", CL, ["Untouched"], [], "CliSteps", "/\\ file' = file /\\ UNCHANGED runs\nWrite", "/\\ file' = \"\" /\\ UNCHANGED runs\nWrite", "the file is emptied when opened"),
 ("CliSteps", CL, ["Whole"], [], "CliSteps", "/\\ file' = file /\\ UNCHANGED runs\nPlace", "/\\ file' = (IF ToFile THEN \"part\" ELSE file) /\\ UNCHANGED runs\nPlace", "the output is written in place"),
 ("CliSteps", CL, ["Clean"], [], "CliSteps", 'IF cur.phase > 8 THEN "none" ELSE tmp', "tmp", "failing runs leave what they began"),
 ("CliSteps", CL, ["Outcome"], [], "CliSteps", "Stop0(Rec(1, FALSE, FALSE, file))", "Stop0(Rec(0, FALSE, FALSE, file))", "failures exit 0"),
 ("CliSteps", CL, ["Outcome"], [], "CliSteps", 'IF cur.dest = "stdout" THEN', 'IF cur.dest # "stderr" THEN', "files are written to stdout, too"),
 ("Containers", CO, [], ["Isolated"], "Containers", "hs' = Apply(hs, op).st", "hs' = [h \\in Handles |-> IF op.op = \"clone\" THEN Apply(hs, op).st[op.h] ELSE Apply(hs, op).st[h]]", "clones share"),
 ("DotPath", DP, ["RoundTrip", "NoSeparator"], [], "DotPath", 'IF c = "~" THEN "~0" ELSE', "", "~ is not escaped"),
 ("PointerText", PT, ["RoundTrip"], [], "Pointer", 'IF c = "~" THEN "~0" ELSE IF c = "/"', 'IF c = "/"', "~ is not escaped"),
 ("PointerHist", PH, [], ["Isolated"], "PointerHist", "[st EXCEPT ![op.h] = r.ok]", "[st EXCEPT ![op.h] = r.ok, ![op.from] = r.ok]", "deriving changes what is derived from"),
 ("StructsEnum", {"Big": "FALSE"}, ["Sane"], [], "Types", "(q[j].depth < q[i].depth \\/", "(", "outer fields do not hide inner ones"),
 ("TagsEnum", {}, ["Own", "Wrong"], [], "Types", 'ELSE Opt(Has(tg, "max"), "maximum", Num(Val(tg, "max"))))', 'ELSE Opt(Has(tg, "max"), "minimum", Num(Val(tg, "max"))))', "max sets minimum"),
 ("CmdsEnum", CE, ["Sane"], [], "Cmds", "Words(text) == SplitAt(TrimRight(Drop(text, Len(Prefix))), \" \")", "Words(text) == SplitAt(Drop(text, Len(Prefix)), \" \")", "blanks at the end are arguments"),
 ("LibSteps", LB, ["Right"], [], "LibSteps", "Key(p, ver, o) == <<ver, o>>", "Key(p, ver, o) == <<p, o>>", "what is remembered is not told apart by the files"),
 ("LibSteps", LB, ["Right"], [], "LibSteps", "Key(p, ver, o) == <<ver, o>>", "Key(p, ver, o) == <<ver>>", "what is remembered is not told apart by the options"),
 ("LibSteps", LB, ["OptionsKept"], [], "LibSteps", "             /\\ Set(i, [calls[i] EXCEPT !.at = \"finish\"])\n             /\\ UNCHANGED <<files, opts, puts, hist>>", "             /\\ Set(i, [calls[i] EXCEPT !.at = \"finish\"])\n             /\\ opts' = [opts EXCEPT ![calls[i].opt] = Derived(1, 1)] /\\ UNCHANGED <<files, puts, hist>>", "a scan changes its options"),
 ("LibSteps", LB, [], ["ResultsStay"], "LibSteps", "/\\ End(i, IF calls[i].fmt = BadFmt THEN Fail ELSE Text(calls[calls[i].of].res, calls[i].fmt))", "/\\ calls' = [calls EXCEPT ![i].at = \"done\", ![i].res = Fail, ![calls[i].of].res = Fail] /\\ UNCHANGED hist", "formatting changes the document"),
 ("LibSteps", LB, ["Right"], [], "LibSteps", "/\\ IF files[calls[i].place] = BadVersion THEN End(i, Fail)", "/\\ IF FALSE THEN End(i, Fail)", "errors are passed over"),
 ("LibSteps", LB, [], ["AllEnd"], "LibSteps", "Derive(i) == /\\ calls[i].at = \"derive\"", "Derive(i) == /\\ calls[i].at = \"derive\" /\\ \\A j \\in ActiveOnes : j = i \\/ calls[j].at # \"derive\"", "scans wait for each other")
]


def main():
    bad = 0
    for mod, consts, inv, props, f, old, new, what in M:
        if sys.argv[1:] and mod not in sys.argv[1:]:
            continue
        if old is None:
            print("TODO", mod)
            continue
        d = tempfile.mkdtemp(prefix="vac")
        for x in os.listdir(os.path.join(V, "spec")):
            if x.endswith(".tla"):
                shutil.copy(os.path.join(V, "spec", x), d)
        if f:
            p = os.path.join(d, f + ".tla")
            s = open(p).read()
            if old not in s:
                print("STALE   ", mod, "-", what)
                bad += 1
                shutil.rmtree(d)
                continue
            open(p, "w").write(s.replace(old, new))
        core.SPEC = d
        c = core.Ctx("VAC")
        try:
            c.mc(mod, consts, inv=inv, props=props)
            print("MISSED  ", mod, "-", what)
            bad += 1
        except core.Broken as e:
            ok = "TLC ended with 12" in str(e) or "TLC ended with 13" in str(e)
            print("violated" if ok else "ERROR   ", mod, "-", what, "" if ok else "\n" + str(e)[-1500:])
            bad += not ok
        sys.stdout.flush()
        shutil.rmtree(d)
        shutil.rmtree(c.tmp, True)
    return 1 if bad else 0


sys.exit(main())

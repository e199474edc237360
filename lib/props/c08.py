"""C08: which specification files are read, and what their references mean."""
import e2e
import gen
import gotypes as g
from props import small


def found(r):
    """Files of many names in many places."""
    p = e2e.Profile(npkgs=(1, 5), specs=(0, 3), decoys=.8, share=.2, missing=.02, types=dict(bad=0), refs=(1, 4), root=.1, ops=0,
                    overrides=.1, exports=.1, output=0, extends=0, second=.4, local=.2, bad=r.choice([0, 0, .3]))
    return e2e.case(r, p)


def bound(r):
    """Types of the same name in all packages, referred to from within and without."""
    n = r.choice([["ex.com/m", "ex.com/m/a", "ex.com/m/a/b"], ["ex.com/m/x", "ex.com/m/x.y", "ex.com/m/x-y/z"], ["m", "m/m", "m/m/m"]])
    names = r.sample(n, r.randint(2, 3))
    base = n[0].split("/")[0] if n[0] == "m" else "ex.com/m"
    dirof = {q: "/W/m" + q[len(base):] for q in names}
    kinds = r.sample(["int32", "int64", "string", "bool", "float32", "float64"], len(names) * 2)
    decls, pkgs, files = {}, [], [{"path": "/W/m/go.mod", "text": "module %s\n\ngo 1.14\n" % base}]
    if base == "m" and "m" not in names:
        pass
    for i, q in enumerate(names):
        decls[q] = {"T": g.struct([g.field("F", g.basic(kinds[i])), g.field("G", g.slc(g.basic(kinds[-1 - i])))]),
                    "U": g.mp(g.named(names[r.randrange(i)], "T")) if i and r.random() < .5 else g.ptr(g.named(q, "T"))}
        imps = set(g.used(decls[q]["U"], set())) - {q}
        more = {names[i - 1]} if i else set()
        imps |= more
        fs = []
        for name in r.sample(e2e.SPECS, r.randint(1, 2)):
            o = {"openapi": gen.t("3.0.0")} if r.random() < .9 else {}
            for k in range(r.randint(1, 4)):
                t = r.choice(["T", "U", "T/F", "T/G", "T/G/[]", "U/T"][:5])
                w = r.choice(["", "", q] + names)
                ref = gen.obj({"$ref": gen.t(r.choice(["#/components/x", "other.json#/T"]) if r.random() < .15 else
                                             "go://%s#/%s" % (w if w in names[:i + 1] else "", t))})
                if r.random() < .2:
                    ref = gen.obj(dict(ref["o"], description=gen.t("go://#/T")))
                key = "k%d%s%d" % (i, name[5:], k)
                o[key] = r.choice([ref, gen.arr([ref, gen.t("go://#/T")]), gen.obj({"allOf": gen.arr([ref])}), gen.obj({"1": gen.obj({"a.b": ref})}),
                                   gen.obj({"$ref": gen.obj({"$ref": ref["o"]["$ref"]})}), gen.obj({"ref": ref["o"]["$ref"], "x": ref})])
            fs.append({"name": name, "doc": gen.obj(o)})
        pkgs.append({"path": q, "imports": sorted(imps), "files": fs, "cmts": [], "broken": False})
        files.append({"path": dirof[q] + "/t.go", "text": g.source(decls[q], q, blank=sorted(imps), r=r)})
        for f in fs:
            files.append({"path": dirof[q] + "/" + f["name"], "text": e2e.render.text(r, f["name"], f["doc"])})
    root = names[-1] if r.random() < .7 else r.choice(names)
    fl = {"x": "", "dir": e2e.rel(r, dirof[root], "/W"), "format": r.choice(["json", "yaml"])}
    return {"m": "cli", "want": "run", "n": 1, "pr": {"pkgs": pkgs, "decls": decls}, "order": [], "flags": fl,
            "argv": ["--dir", e2e.atroot(fl["dir"]), "--format", fl["format"]], "cwd": "/W", "configs": [],
            "dirs": [{"path": d, "pkg": p} for p, d in dirof.items()], "before": [], "files": files}


def check(ctx):
    r = ctx.rnd
    ctx.mc("SpecsSteps", {"Projects": "<- " + ctx.n("FewProjects", "AllProjects"), "MergePolicy": '"same"'},
           inv=["Right", "Found", "Local"], props=["Ends"] if not ctx.thorough else [], what="orders of packages, files and documents")
    prs = ctx.enum("ProjectEnum", {"Projects": "<- AllProjects", "MergePolicy": '"same"'}, spec="DumpSpec", what="small projects")
    e2e.judge(ctx, [small.case(r, p) for p in r.sample(prs, min(len(prs), ctx.n(300, 3000)))], "small projects")
    e2e.judge(ctx, [bound(r) for _ in range(ctx.n(250, 2500))], "references in files")
    e2e.judge(ctx, [found(r) for _ in range(ctx.n(300, 3000))], "files of projects")

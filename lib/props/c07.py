"""C07: merging of specifications."""
import e2e
import gen
from props import small


def docs(r, clash, n=(2, 5)):
    """Many files which share keys; the point is what they are merged to."""
    p = e2e.Profile(npkgs=n, specs=(1, 3), clash=clash, share=.7, missing=0, types=dict(bad=0, ntypes=(1, 2)), refs=(0, 3), root=.15, ops=0,
                    overrides=0, exports=0, output=0, extends=0, decoys=.1, second=.15, paths=.9, odd=.4)
    return e2e.case(r, p)


def norefs(v):
    """v without references."""
    if "o" in v:
        return gen.obj({"ref" if k == "$ref" else k: norefs(x) for k, x in v["o"].items()})
    return gen.arr([norefs(x) for x in v["a"]]) if "a" in v else v


def pair(r):
    """Two files which differ in one value that looks the same, or agree in it."""
    v = gen.value(r, r.choice([0, 0, 1, 2])) if r.random() < .85 else gen.big(r, null=False)
    w = norefs(gen.near(r, v) if r.random() < .8 else v)
    v = norefs(v)
    ks = [gen.key(r) for _ in range(r.choice([1, 1, 2, 3] + [15] * (r.random() < .2)))]
    ks = ["x" if k == "$ref" else k for k in ks]
    if ks[0] in ("openapi", "info", "paths", "components", "servers", "tags", "security", "externalDocs"):
        ks[0] = "x"
    names = r.sample(e2e.SPECS, 2)
    pkgs = []
    for p, fs in r.choice([[("r", [0, 1]), ("a", []), ("b", [])], [("r", [0]), ("a", [1]), ("b", [])]]):
        files = []
        for i in fs:
            d = [v, w][i]
            for k in reversed(ks):
                d = gen.obj({k: d})
            files.append({"name": names[i], "doc": gen.obj(dict(gen.keys(d), openapi=gen.t("3.0.0")))})
        pkgs.append({"path": p, "imports": ["a"] if p == "r" else [], "files": files, "cmts": [], "broken": False})
    return {"pkgs": pkgs, "decls": {}}


def check(ctx):
    r = ctx.rnd
    ctx.mc("SpecsSteps", {"Projects": "<- " + ctx.n("FewProjects", "AllProjects"), "MergePolicy": '"same"'},
           inv=["Right", "Found", "Kept", "Stated0", "Local"], props=["Ends"] if not ctx.thorough else [],
           what="orders of packages, files and documents")
    prs = ctx.enum("ProjectEnum", {"Projects": "<- AllProjects", "MergePolicy": '"same"'}, spec="DumpSpec", what="small projects")
    # those with specifications in two places at least
    prs = [p for p in prs if sum(f["name"] in e2e.SPECS and "doc" in f for k in p["pkgs"] for f in k["files"]) > 1
           and not any("bad" in f and f["name"] in e2e.SPECS for k in p["pkgs"] for f in k["files"])]
    e2e.judge(ctx, [small.case(r, p) for p in r.sample(prs, min(len(prs), ctx.n(350, 3000)))], "small projects")
    e2e.judge(ctx, [small.case(r, pair(r)) for _ in range(ctx.n(160, 2000))], "two values which look the same")
    e2e.judge(ctx, [docs(r, 0) for _ in range(ctx.n(250, 2500))], "specifications which agree")
    e2e.judge(ctx, [docs(r, 1) for _ in range(ctx.n(250, 2500))], "specifications which differ")

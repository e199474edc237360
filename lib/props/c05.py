"""C05: the same input, the same bytes."""
import e2e
import gen
import gotypes as g
import render


def many(r, n):
    """Everything that goes over a map: several default operations for one operation, many components, types and keys."""
    p = e2e.Profile(npkgs=(2, 5), specs=(1, 3), missing=.003, types=dict(bad=0, ntypes=(2, 4), tags=r.choice([.4, .9]), req=r.choice([.3, .9]), fields=(0, r.choice([5, 9]))), refs=(2, 6), exports=.6, root=.8,
                    ops=0, overrides=.5, extends=.4, decoys=.1, paths=1, share=.8, output=.3, clash=.02)
    P = e2e.Project(r, p)
    P.specs()
    cfg = P.config()
    o = e2e.Sections(r, p=.2, refs=[g.text(*P.ptr()) for _ in range(2)] + ["#/components/schemas/Pet"], callbacks=False)
    pats = r.sample(["*", "get:*", "post:*", "/*", "/a*", "/b*", "delete:*", "/pets/{id}", "get:/a", "get:/b", "put:/*", "/a", "GET:/a*"] + ["*a", "/*a", "/{x}", "/{y}", "get:/{x}*", "get:/{y}*", "get:/**", "**"] * (r.random() < .6), r.randint(2, 4))
    if r.random() < .85:
        # some say of themselves where they come from, so that the order in which they are used is seen
        cfg["operations"] = gen.obj({q: gen.obj(dict(gen.keys(o.operation(0)), **{k: gen.t(q) for k in ("summary", "description") if r.random() < .6}))
                                     for q in pats})
    return e2e.run(r, P, cfg, want="repeat", n=n)


def failing(r, n):
    """Some of these clash, or refer to nothing."""
    p = e2e.Profile(npkgs=(2, 4), specs=(1, 2), missing=.1, clash=.5, exports=.7, badexports=.1, root=.7, ops=.6, overrides=.4, broken=.02,
                    bad=.1, strict_comps=.5)
    return e2e.case(r, p, want="repeat", n=n)


def twins(r, n):
    """Struct types without name which are the same in several places, and named ones with their fields, some of which are
    exported or overridden. Which place a reference to such a type names is the tool's choice, but it has to be the same in every run."""
    pool = r.sample(["struct {\n\t\tF int8\n\t}", "struct {\n\t\tF int8\n\t\tG *string\n\t}", "struct {\n\t\tH []struct {\n\t\t\tF int8\n\t\t}\n\t}",
                     "struct {\n\t\tH struct {\n\t\t\tF int8\n\t\t\tG *string\n\t\t}\n\t}", "struct {\n\t}"], r.randint(1, 3))
    paths = ["ex.com/m", "ex.com/m/a", "ex.com/m/b"][:r.randint(1, 3)]
    names = ["A", "B", "C", "D", "E"]
    ptrs, texts, src = [], {}, {}
    for q in paths:
        s = []
        for t in r.sample(names, r.randint(2, 4)):
            ptrs.append("go://%s#/%s" % (q, t))
            if r.random() < .2:
                s.append("type %s %s" % (t, r.choice(pool).replace("\n\t", "\n")))
                continue
            fs = []
            for f in r.sample(["X", "Y", "Z"], r.randint(1, 3)):
                w, k = r.choice([("", ""), ("", ""), ("*", "/*"), ("[]", "/[]"), ("map[string]", "/[]"), ("[]*", "/[]/*")])
                fs.append("\t%s %s%s" % (f, w, r.choice(pool)))
                ptrs.append("go://%s#/%s/%s%s" % (q, t, f, k))
            s.append("type %s struct {\n%s\n}" % (t, "\n".join(fs)))
        src[q] = s
    deep = [x for x in ptrs if x.count("/") > 3 + x.split("#")[0].count("/") - 2]
    for i, x in enumerate(r.sample(deep or ptrs, min(len(deep or ptrs), r.randint(1, 3)))):
        src[r.choice(paths)].insert(0, "//openapi:schema N%d %s" % (i, x))
    files = [{"path": "/W/go.mod", "text": "module ex.com/m\n\ngo 1.14\n"}]
    for q in paths:
        d = "/W" + q[len("ex.com/m"):]
        imp = "".join('import _ "%s"\n' % x for x in paths if q == paths[0] and x != q)
        files.append({"path": d + "/p.go", "text": "package p\n\n%s\n%s\n" % (imp, "\n\n".join(src[q]))})
    refs = r.sample(ptrs, min(len(ptrs), r.randint(2, 6)))
    doc = gen.obj(dict([("openapi", gen.t("3.0.0"))] + [("x%d" % i, gen.obj({"$ref": gen.t(x)})) for i, x in enumerate(refs)]))
    files.append({"path": "/W/oapi.json", "text": render.jtext(doc)})
    argv = ["--format", r.choice(["json", "yaml", "go", "json:pretty"])]
    if r.random() < .5:
        ov = {x: gen.obj({"type": gen.t("string"), "title": gen.t(x)}) for x in r.sample(ptrs, r.randint(1, 2))}
        files.append({"path": "/W/c.json", "text": render.jtext(gen.obj({"overrides": gen.obj(ov)}))})
        argv += ["--config", "c.json"]
    return {"m": "cli", "want": "same", "n": n, "argv": argv, "cwd": "/W", "configs": [], "dirs": [], "before": [], "files": files}


def check(ctx):
    r = ctx.rnd
    ctx.mc("Pipeline", {"Worlds": "<- " + ("More" if ctx.thorough else "Small")}, inv=["Determined", "Written", "Clear"],
           props=[] if ctx.thorough else ["Ends"], what="orders of all stages of a run")
    ctx.mc("KeyOrderMC", {"Others": "<- OtherKeys", "List": "<- FirstKeys"}, inv=["Total", "SameKeys", "Unique"], what="orders of keys")
    n = ctx.n(6, 10)
    e2e.judge(ctx, [many(r, n) for _ in range(ctx.n(110, 900))], "runs of rich projects, repeated")
    e2e.judge(ctx, [failing(r, n) for _ in range(ctx.n(60, 500))], "runs which may fail, repeated")
    e2e.judge(ctx, [twins(r, n + 2) for _ in range(ctx.n(80, 800))], "like types in several places, repeated")

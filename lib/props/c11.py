"""C11: default operations."""
import e2e
import gen
import oas
import routes
from props import c20, cfgkeys, res
from props.c09 import related

ODDKEYS = ["parameters", "servers", "summary", "description", "$ref", "x-get", "gets", "x-y", "ge", "connect"]


def project(r, o):
    """Paths, patterns which match some of them, and operations."""
    n = r.choice([1, 1, 2, 3])
    pats = []
    for _ in range(n):
        x = r.random()
        if x < .3:
            p = r.choice(["*", "get:*", "post:*", "/*", "/pets/*", "Get:/pets", "/a/{id}", "*.json", "delete:/pets/{id}", "/{a}/{b}"])
        else:
            p = routes.pattern(r, r.random() < .5)
        if p and p not in pats:
            pats.append(p)
    if r.random() < .15:     # patterns of one length which overlap
        pats = r.sample(r.choice([["*", "/"], ["/{a}", "/{b}", "/{c}", "/a*b"], ["/a*", "/*a", "/**"], ["get:/*", "Get:/*", "GET:**", "get:*a"],
                                  ["/p/{a}", "/{p}/a", "/{a}/*", "/p/a/*"]]), 2)
    pats.sort(key=lambda p: p.encode("utf8"))
    ops = [{"pat": p, "op": o.operation()} for p in pats]
    if r.random() < .3:      # which say where they come from
        for x in ops:
            x["op"] = gen.obj(dict(gen.keys(x["op"]), **{k: gen.t(x["pat"]) for k in ("summary", "operationId") if r.random() < .7}))
    paths = {}
    for _ in range(r.randint(0, 5)):
        p = routes.instance(r, r.choice(pats)) if pats and r.random() < .75 else routes.path(r)
        if "\n" in p:
            continue
        if r.random() < .05:
            p = "x-" + p
        item = {}
        for m in r.sample(oas.METHODS, r.choice([0, 1, 2, 3])):
            m = r.choice([m, m, m, m, m.upper(), m.capitalize()])
            x = r.random()
            if x < .5 and ops:
                v = related(r, r.choice(ops)["op"])
            elif x < .55:
                v = gen.NULL
            else:
                v = gen.doc(r, 2, plain=("tags", "summary", "responses", "parameters"))
            item[m] = v if "o" in v or "e" in v or v == gen.NULL else gen.obj({})
        for k in r.sample(ODDKEYS, r.choice([0, 0, 1, 2])):
            item[k] = gen.value(r, 1) if not k.startswith("x-") else gen.doc(r, 2)
        paths[p] = gen.obj(item) if item or r.random() < .8 else gen.NULL
    d = {"paths": gen.obj(paths)} if r.random() < .97 else {}
    for k in r.sample(["openapi", "info", "components", "get", "x-paths", "webhooks"], r.randint(0, 3)):
        d[k] = gen.obj({"/a": gen.obj({"get": gen.obj({})})}) if r.random() < .4 else gen.value(r, 2)
    return {"m": "defops", "doc": gen.obj(d), "ops": ops, "n": 4}


def whole(r, o):
    """The same as a run of the command: a specification with the paths, a configuration with the operations."""
    c = project(r, o)
    d = gen.keys(c["doc"])
    d["openapi"] = gen.t("3.0.0")
    # not what the tool resolves
    doc = res.strip(gen.obj(d))
    ops = {x["pat"]: x["op"] for x in c["ops"]}
    k = c20.case(r, doc, r.choice(["json", "yaml"]), cfg={"operations": gen.obj(ops)} if ops else None)
    k["order"] = [x["pat"] for x in c["ops"]]
    return k


def check(ctx):
    r = ctx.rnd
    ctx.mc("OpsSteps", {"Docs": "<- SomeDocs", "OpLists": "<- SomeOps"}, inv=["Right", "Sound", "Grows"], props=["Ends"],
           what="orders of applying default operations")
    cases = ctx.enum("OpsEnum", {"Docs": "<- SomeDocs", "OpLists": "<- SomeOps"}, spec="DumpSpec", what="the same, written")
    ctx.judge("RootTrace", "RootOpsAccepts", cases, what="small documents")
    cases = [project(r, oas.Oas(r, p=r.choice([.1, .25]), refs=["#/a"])) for _ in range(ctx.n(5000, 50000))]
    ctx.judge("RootTrace", "RootOpsAccepts", cases, what="default operations")
    e2e.some(ctx, 140, refs=(0, 2), missing=0, types=dict(bad=0), root=.2, ops=1, overrides=0, specs=(1, 2), paths=1, exports=.1)
    e2e.judge(ctx, [whole(r, e2e.Sections(r, p=.15, refs=["#/a"])) for _ in range(ctx.n(150, 1500))], "runs with default operations")
    e2e.judge(ctx, cfgkeys.fine(r, True), "keys of the default operations")
    e2e.judge(ctx, cfgkeys.lost(r, True), "keys of the default operations with known findings")

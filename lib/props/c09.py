"""C09: container merge policies."""
import e2e
import gen
from props import hist


def related(r, v, depth=0):
    """A variation of a value, sharing most of its keys."""
    if "o" in v or "e" in v:
        o = {}
        for k, x in gen.keys(v).items():
            y = r.random()
            if y < .25:
                continue
            o[k] = related(r, x, depth + 1) if y < .8 else gen.value(r, 2)
        for _ in range(r.choice([0, 0, 1, 2])):
            o.setdefault(gen.key(r), gen.value(r, 2))
        return gen.obj(o)
    if r.random() < .4:
        return v
    return gen.near(r, v) if r.random() < .4 else gen.value(r, 1)


def alike(r, v):
    """A variation which differs in few places, however deep."""
    if "o" in v:
        o = {k: alike(r, x) for k, x in v["o"].items() if r.random() < .97}
        if r.random() < .05 and o:
            o[r.choice(sorted(o))] = gen.value(r, 1)
        if r.random() < .2:
            o.setdefault(gen.key(r), gen.scalar(r))
        return gen.obj(o)
    return gen.near(r, v) if r.random() < .05 and "a" not in v else v


def check(ctx):
    r = ctx.rnd
    ctx.mc("MergeSteps", {"DestDocs": "<- Docs1", "SrcDocs": "<- Docs1", "Pols": '{"strict", "default", "override", "same"}'},
           inv=["Confluent", "Kept"], props=["Ends"], what="orders of keys, flat")
    ctx.mc("MergeSteps", {"DestDocs": "<- Nested", "SrcDocs": "<- Nested", "Pols": '{"strict", "default", "override", "same"}'},
           inv=["Confluent", "Kept"], props=["Ends"], what="orders of keys, one below another")
    if ctx.thorough:
        ctx.mc("MergeSteps", {"DestDocs": "<- Docs2", "SrcDocs": "<- Docs2",
                              "Pols": '{"strict", "default", "override"}'},
               inv=["Confluent", "Kept"], what="orders of keys, nested")
    cases = ctx.enum("MergeEnum", {"DestDocs": "<- " + ctx.n("Docs1", "Docs2"), "SrcDocs": "<- " + ctx.n("Docs1", "Docs2"),
                                   "Pols": '{"strict", "default", "override"}'}, what="all small merges")
    ctx.judge("MergeTrace", "MergeAccepts", cases, what="every merge of the small scope")
    cases = []
    for _ in range(ctx.n(6000, 60000)):
        d = gen.doc(r, r.choice([1, 2, 3, 4]), width=4)
        s = related(r, d) if r.random() < .8 else gen.doc(r, 3)
        pol = r.choice(["strict", "default", "override"])
        if pol == "strict" and r.random() < .5:     # without collisions
            so = {k: x for k, x in gen.keys(s).items() if k not in gen.keys(d)}
            if r.random() < .5:
                so["n"] = gen.obj({"p": gen.value(r, 2)})
                d = gen.obj(dict(gen.keys(d), n=gen.obj({"q": gen.value(r, 2)})))
            s = gen.obj(so)
        cases.append({"m": "merge", "pol": pol, "d": d, "s": s, "n": 3})
    for _ in range(ctx.n(300, 3000)):
        d = gen.big(r)
        cases.append({"m": "merge", "pol": r.choice(["default", "override", "strict"]), "d": d, "s": alike(r, d), "n": 3})
    ctx.judge("MergeTrace", "MergeAccepts", cases, what="random merges")
    hist.check(ctx, ["make", "clone", "set", "set", "setfrom", "merge", "merge", "merge", "merge", "mergeall", "get"])
    # specifications united, configuration over them, and a configuration over another
    e2e.some(ctx, 90, npkgs=(2, 4), specs=(1, 2), refs=(0, 1), missing=0, types=dict(bad=0), share=.8, clash=.15, root=.9, ops=.6, extends=.7, exports=.1)

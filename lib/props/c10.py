"""C10: the root document."""
import e2e
import gen
import oas
from props import cfgkeys
from props.c09 import related

SECTIONS = ["info", "components", "paths", "externalDocs", "security", "servers", "tags"]


def docof(r, cfg, clash):
    """A specification which shares something with the configuration."""
    o = {"openapi": gen.t("3.0.0")} if r.random() < .8 else {}
    for k, v in gen.keys(cfg).items():
        x = r.random()
        if x < .3:
            continue
        if k == "components" and not clash:
            c = {}
            for kind, m in gen.keys(v).items():
                if r.random() < .6:
                    c[kind] = gen.obj({n + "2": gen.doc(r, 1) for n in gen.keys(m)})
            if r.random() < .4:
                c["x"] = gen.doc(r, 2)
            o[k] = gen.obj(c)
        elif x < .9:
            o[k] = related(r, v)
        else:
            o[k] = gen.value(r, 2)
    for k in SECTIONS + ["x-y", "x.y", "webhooks"]:
        if k not in o and r.random() < .2 and (k != "components" or "components" not in gen.keys(cfg) or clash):
            o[k] = gen.NULL if r.random() < .15 else gen.doc(r, 2)
    if r.random() < .1:
        o[r.choice(SECTIONS)] = gen.NULL
    return gen.obj(o)


def check(ctx):
    r = ctx.rnd
    ctx.mc("RootSteps", {"Docs": "<- Few", "Cfgs": "<- CfgDocs"}, inv=["Right", "Untouched", "Winner"],
           what="sections of two documents")
    cases = []
    for _ in range(ctx.n(6000, 60000)):
        o = oas.Oas(r, p=r.choice([.15, .3]), refs=["#/components/schemas/Pet", "go://ex.com/p#/T", "go://ex.com/q.r#/T~1x/F"])
        cfg = o.root(paths=True)
        cases.append({"m": "root", "doc": docof(r, cfg, r.random() < .3), "cfg": cfg, "n": 2})
    ctx.judge("RootTrace", "RootOpsAccepts", cases, what="documents with root documents")
    e2e.some(ctx, 140, refs=(0, 2), missing=0, types=dict(bad=0), root=1, ops=.1, overrides=0, strict_comps=.15, specs=(1, 2), exports=.1)
    e2e.judge(ctx, cfgkeys.fine(r, False), "keys of the configuration")
    e2e.judge(ctx, cfgkeys.lost(r, False), "keys of the configuration with known findings")

"""C01: no external reference survives."""
import e2e
from props import res


def check(ctx):
    r = ctx.rnd
    res.model(ctx, ctx.n("FewGraphs", "SomeGraphs"))
    cases = res.systematic(ctx, ctx.n(1500, 8000), graphs="SomeGraphs")
    res.judge(ctx, cases, "small graphs, some references to nothing")
    cases = []
    for _ in range(ctx.n(3500, 35000)):
        p = res.Profile(odd=r.choice([.2, .7]), missing=.08, bad=.06, docrefs=(1, 7), depth=r.choice([2, 3, 4]))
        cases.append(res.case(r, p))
    res.judge(ctx, cases, "references at any place of documents")
    p = res.Profile(missing=.1, exports=1)
    res.judge(ctx, [(res.chain if r.random() < .6 else res.wide)(r, p) for _ in range(ctx.n(120, 600))], "long chains and many references")
    e2e.some(ctx, 150, refs=(2, 7), missing=.05, root=.7, ops=.7, overrides=.5, subptr=.3, exports=.4)

"""C02: resolving changes references and nothing else."""
import e2e
from props import res


def check(ctx):
    r = ctx.rnd
    res.model(ctx, ctx.n("FewGraphs", "SomeGraphs"), docs=ctx.n("OneDoc", "FewDocs"))
    cases = res.systematic(ctx, ctx.n(1000, 8000), graphs="SomeGraphs")
    res.judge(ctx, cases, "small graphs")
    cases = []
    for _ in range(ctx.n(3500, 35000)):
        p = res.Profile(odd=r.choice([.1, .4, .8]), local=.4, docrefs=(0, 6), depth=r.choice([2, 3, 4, 5]), missing=0, bad=0,
                        comps=.6)
        cases.append(res.case(r, p))
    res.judge(ctx, cases, "documents with other content")
    e2e.some(ctx, 130, refs=(1, 5), missing=0, types=dict(bad=0), local=.4, odd=.6, root=.4, ops=.2, exports=.4, specs=(1, 2))

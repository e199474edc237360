"""C04: exported types are components, whatever their use."""
import copy
import e2e
from props import res


def check(ctx):
    r = ctx.rnd
    res.model(ctx, ctx.n("FewGraphs", "SomeGraphs"), docs=ctx.n("OneDoc", "FewDocs"))
    cases = res.systematic(ctx, ctx.n(1500, 10000), graphs="SomeGraphs")
    res.judge(ctx, cases, "small graphs")
    cases = []
    for _ in range(ctx.n(3000, 30000)):
        p = res.Profile(odd=.3, exports=r.choice([.5, .8, 1]), docrefs=(1, 5), refs=(0, 2), missing=.01, bad=0, dup=.08,
                        exists=.15, comps=.5, n=2)
        c = res.case(r, p)
        cases.append(c)
        if r.random() < .3:      # the same exports in another order
            d = copy.deepcopy(c)
            d["exports"].reverse()
            d["env"].reverse()
            cases.append(d)
    res.judge(ctx, cases, "many exports")
    p = res.Profile(missing=0, exports=1, n=2)
    res.judge(ctx, [(res.chain if r.random() < .5 else res.wide)(r, p) for _ in range(ctx.n(120, 600))], "long chains and many exports")
    e2e.some(ctx, 140, refs=(2, 6), missing=.005, types=dict(bad=0), exports=.9, badexports=.02, strict_comps=.3, root=.4, ops=.2, specs=(1, 2))

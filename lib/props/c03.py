"""C03: recursion ends and is cut where it recurs."""
import e2e
from props import res


def check(ctx):
    r = ctx.rnd
    res.model(ctx, ctx.n("SomeGraphs", "AllGraphs"), ends=not ctx.thorough)
    cases = res.systematic(ctx, ctx.n(3000, 20000), graphs="AllGraphs", docs="OneDoc")
    res.judge(ctx, cases, "small graphs")
    cases = []
    for _ in range(ctx.n(2500, 25000)):
        p = res.Profile(odd=.1, local=.03, docrefs=(1, 3), depth=1, missing=0, bad=0, comps=.1, ntypes=(2, 7), refs=(1, 2),
                        exports=r.choice([0, .2, .5]))
        if r.random() < .3:
            p.ntypes, p.refs = (1, 3), (1, 4)
        cases.append(res.case(r, p))
    res.judge(ctx, cases, "types which refer to each other")
    p = res.Profile(missing=0, exports=1)
    res.judge(ctx, [res.chain(r, p) for _ in range(ctx.n(200, 1000))], "long chains of types")
    e2e.some(ctx, 130, npkgs=(1, 2), refs=(1, 4), missing=0, local=0, root=0, ops=0, overrides=.1, exports=.3, docs=False, paths=.2,
             types=dict(bad=0, tags=.2, ntypes=(2, 5), structs=.8, depth=2, fields=(1, 3)))

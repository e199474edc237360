"""C12: route patterns."""
import e2e
import routes
from props import c11


def check(ctx):
    r = ctx.rnd
    ctx.mc("RouteSteps", {"PatParts": '{"a", "/", "*", "{id}", "."}', "PathChars": '{"a", "/", "."}',
                          "PatLen": ctx.n("3", "4"), "PathLen": ctx.n("3", "4")},
           inv=["Sound", "Complete", "Onward", "Tracked", "Literal"], what="matching step by step")
    cases = ctx.enum("RouteEnum", {"PatParts": '{"a", "/", "*", "{id}", ".", "{", "}", "$"}', "PathChars": '{"a", "/", "."}',
                                   "PatLen": ctx.n("3", "4"), "PathLen": ctx.n("4", "4")}, what="all short patterns")
    if ctx.thorough:
        cases += ctx.enum("RouteEnum", {"PatParts": '{"a", "/", "*", "{id}", "{x}"}', "PathChars": '{"a", "/", "b"}',
                                        "PatLen": "5", "PathLen": "4"}, what="longer patterns")
    ctx.judge("RouteTrace", "RouteAccepts", cases, what="all short patterns and paths")
    cases = ctx.enum("MethodEnum", {}, what="all pairs of methods")
    ctx.judge("RouteTrace", "RouteAccepts", cases, what="all pairs of methods")
    cases = []
    for _ in range(ctx.n(6000, 60000)):
        p = routes.pattern(r)
        q = [routes.instance(r, p) for _ in range(8)] + [routes.path(r), "", "/"]
        m = p.split(":")[0] if r.random() < .5 and ":" in p else routes.method(r)
        cases.append({"m": "route", "pat": p, "method": r.choice([m, m.upper(), m.lower(), m]), "paths": q})
    for _ in range(ctx.n(300, 3000)):
        p = "".join(routes.pattern(r, True).split(":")[-1] for _ in range(r.randint(3, 8)))
        q = [routes.instance(r, p) for _ in range(6)] + [routes.instance(r, p)[:-1]]
        cases.append({"m": "route", "pat": r.choice(["", "get:"]) + p, "method": "get", "paths": q})
    ctx.judge("RouteTrace", "RouteAccepts", cases, what="random patterns and paths")
    e2e.judge(ctx, [c11.whole(r, e2e.Sections(r, p=.1, refs=["#/a"])) for _ in range(ctx.n(220, 2000))], "patterns of default operations, in runs")

"""C14: schemas of Go types."""
import e2e
import gotypes as g


def exprs(depth, leaves):
    """All type expressions of a depth."""
    if depth == 0:
        return leaves
    sub = exprs(depth - 1, leaves)
    return sub + [f(t) for t in sub for f in (g.ptr, g.slc, g.mp, lambda t: g.arr(t, 3))]


def systematic(r):
    """Every nesting of constructors over leaves of every kind, as type and as field."""
    leaves = [g.basic(b) for b in g.BASICS] + [g.named("ex.com/a", "S"), g.named("ex.com/a", "Str"), g.TIME,
                                                g.named("ex.com/a", "L"), g.named("ex.com/b", "S")]
    bad = [g.other(s) for s in g.OTHERS]
    some = [g.basic("string"), g.named("ex.com/a", "S"), g.TIME, g.named("ex.com/a", "P")]
    types = exprs(1, leaves + bad) + [t for t in exprs(3, some)]
    base = {"ex.com/b": {"S": g.struct([g.field("B", g.basic("int"))])},
            "time": {"Time": g.struct([g.field("wall", g.basic("uint64")), g.field("ext", g.basic("int64"))]),
                     "Duration": g.basic("int64")}}
    cases = []
    for i in range(0, len(types), 12):
        decls = {"S": g.struct([g.field("A", g.basic("string"))]), "Str": g.basic("string"), "L": g.slc(g.basic("bool")),
                 "P": g.ptr(g.named("ex.com/a", "S"))}
        at = []
        for j, t in enumerate(types[i:i + 12]):
            if not (t["k"] == "named" and t["p"] == "time"):
                decls["T%d" % j] = t
                at.append(("ex.com/a", ["T%d" % j]))
            decls["F%d" % j] = g.struct([g.field("F%d" % i, t)])
            at.append(("ex.com/a", ["F%d" % j]))
            if r.random() < .5:
                at.append(("ex.com/a", ["F%d" % j, "F%d" % i]))
        at = [a for a in at if not (len(a[1]) == 2 and types[i + int(a[1][0][1:])] == g.TIME)]
        d = {"time": base["time"], "ex.com/b": base["ex.com/b"], "ex.com/a": decls}
        cases.append(case(d, at))
    return cases


def case(decls, at, order=None, reg=()):
    texts = [g.text(p, t) for p, t in at]
    c = {"m": "types", "decls": g.plain(decls), "at": [{"p": p, "toks": t} for p, t in at], "ptrs": texts,
         "reg": sorted(set(texts) | set(reg)),
         "pkgs": [{"path": p, "src": [g.TIMESRC if p == "time" else g.source(d, p)]} for p, d in decls.items()]}
    if order:
        c["order"] = order
    return c


def check(ctx):
    r = ctx.rnd
    cases = systematic(r)
    for _ in range(ctx.n(1200, 12000)):
        G = g.Gen(r, tags=r.choice([0, 0, .3]), depth=r.choice([2, 3, 4]), bad=r.choice([0, .02, .1]))
        cases.append(G.case())
    ctx.judge("TypesTrace", "TypesAccept", cases, what="schemas of types")
    ctx.judge("TypesTrace", "TypesAccept", [case(*g.large(r)) for _ in range(ctx.n(150, 1500))], what="deep and wide types")
    e2e.some(ctx, 110, refs=(2, 6), missing=0, local=0, root=0, ops=0, overrides=0, exports=.2, docs=False, paths=.2, extends=0,
             types=dict(bad=.04, tags=0, ntypes=(2, 4), depth=3, structs=.3))

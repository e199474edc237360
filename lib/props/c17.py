"""C17: addressing of Go types."""
import itertools
import e2e
import gotypes as g
from props.c14 import case

ODD = ["", "*", "[]", "u1", "wall", "Missing", "f", "X", "0", "T", "[ ]", "**", "len", "a/b", "~", "%", "String"]


def spoiled(r, toks):
    """Variants of an address which mostly denote nothing."""
    t = list(toks)
    x = r.random()
    if x < .3:
        t.append(r.choice(ODD))
    elif x < .5 and len(t) > 1:
        t[r.randrange(1, len(t))] = r.choice(ODD)
    elif x < .6 and len(t) > 1:
        del t[r.randrange(1, len(t))]
    elif x < .7:
        t.insert(r.randrange(1, len(t) + 1), r.choice(["[]", "*"]))
    elif x < .8:
        t[0] = r.choice([t[0] + "x", "Nope", t[0].lower(), "", "T"])
    elif x < .9:
        k = r.randrange(len(t))
        t[k] = t[k].swapcase()
    else:
        t = t + t
    return t


def denotes(G, p, toks):
    """The tool reads these as other things than types (documented limits)."""
    return p == "time" and toks == ["Time"]


def rand(r, n):
    G = g.Gen(r, tags=.15, depth=r.choice([2, 3]), bad=.02, structs=.75, rich=False, unexported=.25,
              pkgs=r.choice([["ex.com/a"], ["ex.com/a", "ex.com/b"], ["ex.com/a", "ex.com/a/a", "ex.com/b"],
                             ["ex.com/p", "ex.com/q", "ex.com/p.q", "ex.com/p-q/v2"]]), ntypes=(1, 4))
    at = []
    for p in G.pkgs:
        for nm in G.names[p]:
            for t in G.paths(p, nm, r.choice([2, 6, 12])):
                at.append((p, t))
                if r.random() < .4:
                    at.append((p, spoiled(r, t)))
                if r.random() < .1:
                    at.append((r.choice(["ex.com/a", "ex.com", "ex.com/none", "a", "ex.com/b", "time", "ex.com/a/"]), t))
    r.shuffle(at)
    seen, out = set(), []
    for a in at:
        x = g.text(*a)
        if x not in seen and not timed(G, *a):
            seen.add(x)
            out.append(a)
    out = out[:r.choice([1, 3, 10, 30])]
    # other pointers which happen to be registered
    extra = ["http://ex.com/a#/T", "go://ex.com/a#/", "go://ex.com/none#/T", "#/T"] if r.random() < .3 else []
    extra += [g.text(p, [n]) for p in G.pkgs for n in G.names[p] if r.random() < r.choice([0, .5, 1])]
    order = list(range(len(G.allpkgs())))
    r.shuffle(order)
    return G.case(ptrs=out, reg=extra, order=order)


def timed(G, p, toks):
    """Is the address one of time.Time itself? References to it are not kept apart."""
    return p == "time"


def small(r):
    """One fixed program, every address of up to four tokens."""
    T = g.named("ex.com/a", "T")
    U = g.named("ex.com/b", "U")
    decls = {
        "ex.com/b": {"U": g.struct([g.field("G", g.slc(g.basic("int"))), g.field("h", g.basic("int")),
                                    g.field("R", g.ptr(U))]), "T": g.basic("bool")},
        "ex.com/a": {"T": g.struct([g.field("F", g.ptr(U)), g.field("G", g.mp(g.slc(T))), g.field("u", T and g.ptr(T)),
                                    g.field("T", g.struct([g.field("F", g.arr(g.basic("string"), 2))]))]),
                     "L": g.slc(g.named("ex.com/a", "L")), "M": g.mp(g.ptr(T)), "P": g.ptr(g.ptr(g.basic("int8"))),
                     "I": g.other("interface{ F() }"), "t": g.struct([g.field("F", U)]),
                     "u": g.struct([g.field("R", g.slc(U))]),
                     "E": g.struct([g.field("t", g.named("ex.com/a", "t"), True), g.field("u", g.ptr(g.named("ex.com/a", "u")), True),
                                    g.field("G", {"k": "chan", "t": g.slc(U)})])}}
    heads = [("ex.com/a", n) for n in ("T", "L", "M", "P", "I", "t", "U", "G")] + [("ex.com/b", n) for n in ("U", "T", "t")] + \
        [("ex.com/c", "T"), ("ex.com", "T"), ("a", "T")]
    al = ["F", "G", "u", "h", "R", "T", "[]", "*", ""]
    ats = [(p, [n] + list(q)) for p, n in heads for k in range(4) for q in itertools.product(al, repeat=k)]
    # fields which are not exported, embedded or not, are no part of an address
    ats += [("ex.com/a", [n] + list(q)) for n in ("E", "T") for k in range(4)
            for q in itertools.product(["t", "u", "F", "G", "R", "*", "[]"], repeat=k)]
    ats = list({g.text(p, t): (p, t) for p, t in ats}.values())
    r.shuffle(ats)
    cases = []
    for i in range(0, len(ats), 60):
        part = ats[i:i + 60]
        order = r.choice([[0, 1], [1, 0]])
        cases.append(case(decls, part, order=order))
    return cases


def check(ctx):
    r = ctx.rnd
    shapes = '{"A", "B", "C", "anonA", "sliceB", "ptrC", "selfslice", "two", "hidden"%s}' % (', "int", "hiddenptr"' if ctx.thorough else "")
    ctx.mc("TypesWalk", {"Shapes": shapes, "MaxToks": ctx.n("3", "4")}, inv=["Sound", "Complete", "Closed", "Once"], props=["Ends"],
           what="walks over programs of three types")
    cases = small(r) + [rand(r, 0) for _ in range(ctx.n(2500, 25000))]
    ctx.judge("TypesTrace", "TypesAccept", cases, what="addresses")
    ctx.judge("TypesTrace", "TypesAccept", [case(*g.large(r)) for _ in range(ctx.n(150, 1500))], what="deep and wide types")
    e2e.some(ctx, 110, refs=(2, 6), missing=.03, local=0, root=.1, ops=0, overrides=.3, exports=.2, docs=False, paths=.2, extends=0,
             types=dict(bad=0, tags=.2, ntypes=(2, 4), structs=.7, depth=3), subptr=.8)

"""C15: properties and required lists of structs."""
import copy
import e2e
import gotypes as g
from props.c14 import case


def retag(t):
    """Writes the text of all tags of a type."""
    if t["k"] == "struct":
        for f in t["f"]:
            x = g.field(f["n"], f["t"], f["emb"], f["jn"] or None, f["jo"], f["on"] or None, f["oo"])
            f["tag"] = x["tag"]
            retag(f["t"])
    elif "t" in t:
        retag(t["t"])
    return t


NAMES = ["", "", "", "a", "b", "A", "B", "C", "-", "S1", "x.y"]


def deep(r):
    """Many structs which embed each other in any way, few names."""
    n = r.randint(2, 5)
    decls = {}
    names = [r.choice(["S", "S", "S", "s"]) + str(i) for i in range(n)]
    for i in range(n):
        fs, used = [], set()
        for _ in range(r.randint(0, 3)):
            x = r.random()
            flag = lambda: r.choice(["", "true", "false", "1", "0"])
            oo = [{"k": k, "v": flag()} for k in ("required",) if r.random() < .5]
            jo = [{"k": "omitempty", "v": ""}] if r.random() < .2 else []
            jn = r.choice(NAMES) if r.random() < .5 else None
            on = r.choice(NAMES) if r.random() < .4 or oo else None
            if x < .5:
                nm = r.choice(["A", "B", "C", "u", "v"])
                t = r.choice([g.basic(r.choice(["string", "int32", "bool"])), g.slc(g.basic("int8")),
                              g.ptr(g.named("ex.com/a", names[r.randrange(n)]))])
                f = g.field(nm, t, False, jn, jo, on, oo)
            else:
                j = r.randrange(n)
                direct = r.random() < .6 and j < i
                t = g.named("ex.com/a", names[j])
                t = t if direct else g.ptr(t)
                emb = r.random() < .7
                x = r.random()
                if x < .25 and not emb:      # pointers which have names, or other names of structs
                    k = "P%d" % r.randrange(9)
                    if k not in decls:
                        decls[k] = g.ptr(g.named("ex.com/a", names[j])) if r.random() < .8 or not direct else g.named("ex.com/a", names[j])
                        if r.random() < .2:
                            decls["Q" + k] = g.named("ex.com/a", k)
                    t = g.named("ex.com/a", r.choice([k, "Q" + k]) if "Q" + k in decls else k)
                    t = t if decls[k]["k"] == "ptr" else g.ptr(t)
                nm = names[j] if emb else r.choice(["A", "B", "D"])
                if r.random() < (.4 if emb else .6):
                    inl = {"k": "inline", "v": flag()}
                    if jn != "-" and r.random() < .3:
                        jo = jo + [inl]
                        if on is None and not oo:
                            on = None
                    else:
                        on = on or ""
                        oo = oo + [inl]
                f = g.field(nm, t, emb, jn, jo, on if on is not None else ("" if oo else None), oo)
            if nm in used:
                continue
            used.add(nm)
            fs.append(f)
        decls[names[i]] = g.struct(fs)
    return case({"ex.com/a": decls}, [("ex.com/a", [k]) for k in decls if k[0] in "Ss"])


def check(ctx):
    r = ctx.rnd
    big = "TRUE" if ctx.thorough else "FALSE"
    ctx.mc("StructsEnum", {"Big": "FALSE"}, inv=["Sane"], what="programs of three structs")
    progs = ctx.enum("StructsEnum", {"Big": big}, spec="DumpSpec", what="programs of three structs, written")
    progs = r.sample(progs, min(len(progs), ctx.n(2500, 25000)))
    cases = []
    for p in progs:
        for d in p.values():
            for t in d.values():
                retag(t)
        cases.append(case(p, [("ex.com/a", ["S0"]), ("ex.com/a", ["S1"])]))
    ctx.judge("TypesTrace", "TypesAccept", cases, what="programs of three structs")
    cases = [deep(r) for _ in range(ctx.n(2500, 25000))]
    for _ in range(ctx.n(700, 7000)):
        G = g.Gen(r, tags=.7, depth=2, bad=.01, emb=.6, structs=.9, fields=(0, 6), rich=False, ntypes=(2, 4),
                  unexported=.1, anon=r.random() < .3)
        cases.append(G.case())
    ctx.judge("TypesTrace", "TypesAccept", cases, what="embedding of structs")
    ctx.judge("TypesTrace", "TypesAccept", [case(*g.large(r)) for _ in range(ctx.n(150, 1500))], what="deep and wide types")
    e2e.some(ctx, 110, refs=(2, 5), missing=0, local=0, root=0, ops=0, overrides=0, exports=.2, docs=False, paths=.2, extends=0,
             types=dict(bad=0, tags=.7, ntypes=(2, 4), structs=.9, emb=.6, rich=False, fields=(0, 6)))

"""C06: overrides."""
import e2e
import gen
import gotypes as g

F, S, N = g.field, g.struct, g.named


def project(r):
    """Types with the same fields, and types made of them, in two packages."""
    a, b = r.choice([("ex.com/m/a", "ex.com/m"), ("ex.com/m", "ex.com/m/b"), ("ex.com/m/x.y", "ex.com/m/x")])
    same = [F("ID", g.basic(r.choice(["int", "int32", "string"]))), F("Sub", g.ptr(N(a, "A")))][:r.randint(1, 2)]
    A = {"A": S(same), "B": S(same), "L": g.slc(N(a, "A")), "M": g.mp(N(a, "B")), "P": g.ptr(N(a, "B")), "K": g.basic("int64"),
         "W": S([F("X", N(a, "A")), F("Y", N(a, "B")), F("Z", N(a, "K")), F("Xs", g.slc(N(a, "A"))), F("Q", g.ptr(N(a, "L")))]),
         "C": g.other("chan int"), "V": S([F("C", N(a, "C"))]), "E": S([F("A", N(a, "A"), emb=True), F("T", g.basic("bool"))])}
    B = {"A": S(same if r.random() < .5 and len(same) == 1 else [F("N", N(a, "A"))]), "U": S([F("A", N(b, "A")), F("O", N(a, "A")), F("B", N(a, "B"))]),
         "R": S([F("Self", g.ptr(N(b, "R"))), F("A", N(a, "A"))])}
    keepA = {k for k in A if k in "AB" or r.random() < .6}
    if "W" in keepA:
        keepA |= {"K", "L"}
    if "V" in keepA:
        keepA |= {"C"}
    A = {k: A[k] for k in A if k in keepA}
    return a, b, {a: A, b: B}


def case(r):
    a, b, decls = project(r)
    base = "ex.com/m"
    dirof = {q: "/W/m" + q[len(base):] for q in (a, b)}
    pool = [g.text(q, [n]) for q in (a, b) for n in decls[q] if n not in "CV" or q == b]
    sub = [g.text(a, ["W", "X"]), g.text(a, ["W", "Xs", "[]"]), g.text(a, ["L", "[]"]), g.text(a, ["P", "*"]), g.text(b, ["U", "A"]),
           g.text(a, ["E", "T"])]
    pool += sub
    pool = [t for t in pool if t.split("#/")[1].split("/")[0] in decls[t[5:].split("#")[0]]]
    gone = ["go://%s#/Nope" % a, "go://ex.com/none#/T", "http://ex.com/s.json#/A", g.text(a, ["C"]), g.text(a, ["V"]), g.text(a, ["V", "C"])]
    over = {}
    for _ in range(r.randint(1, 3)):
        t = r.choice(gone) if r.random() < .3 else r.choice(pool)
        refs = [r.choice(pool + list(over) + [t]) for _ in range(2)]
        x = r.random()
        if x < .35:
            v = gen.obj({"type": gen.t("string"), "format": gen.t("over%d" % len(over))})
        elif x < .5:
            v = gen.obj({"$ref": gen.t(refs[0])})
        elif x < .75:
            v = gen.obj({"type": gen.t("object"), "title": gen.t("o"), "properties": gen.obj({"p": gen.obj({"$ref": gen.t(refs[0])}), "q": gen.obj(
                {"type": gen.t("array"), "items": gen.obj({"$ref": gen.t(refs[1])})})})})
        elif x < .85:
            v = gen.obj({"allOf": gen.arr([gen.obj({"$ref": gen.t(x)}) for x in refs])})
        else:
            v = gen.obj({"description": gen.t("over%d" % len(over)), "nullable": gen.b(True), "example": gen.obj({"a": gen.num(1)})})
        over[t] = v
    named = [t for t in gone if t in over]
    def ref():
        x = r.random()
        t = r.choice(list(over)) if x < .4 else r.choice(pool)
        if t in gone and t not in named:
            t = pool[0]
        return t
    imported = g.used({"k": "struct", "f": [F("X", t) for t in decls[b].values()]}, set())
    pkgs, files = [], [{"path": "/W/m/go.mod", "text": "module ex.com/m\n\ngo 1.14\n"}]
    cmts = {a: [], b: []}
    for q in (a, b):
        for n in decls[q]:
            if n not in "CV" and r.random() < .15:
                cmts[q].append("//openapi:schema %s%s %s" % (n, "1" if q == a else "2", n))
        if r.random() < .1 and named and named[0].startswith("go://" + a):
            cmts[q].append("//openapi:schema N%s %s" % (q[-1], named[0]))
    for q in (a, b):
        o = {"openapi": gen.t("3.0.0")}
        for k in range(r.randint(1, 4)):
            t = ref()
            if t.startswith("go://%s#" % q) and r.random() < .4:
                t = "go://" + t[5 + len(q):]
            x = gen.obj({"$ref": gen.t(t)})
            o["x-%s%d" % (q[-1], k)] = r.choice([x, gen.arr([x]), gen.obj({"schema": x, "n": gen.num(k)})])
        if r.random() < .6:
            o["paths"] = gen.obj({"/%s" % q[-1]: gen.obj({"get": gen.obj({"summary": gen.t("s")})})})
        f = {"name": r.choice(e2e.SPECS), "doc": gen.obj(o)}
        pkgs.append({"path": q, "imports": [] if q == a else [a], "files": [f], "cmts": cmts[q], "broken": False})
        files.append({"path": dirof[q] + "/t.go", "text": g.source(decls[q], q, comments={"": cmts[q]}, r=r)})
        files.append({"path": dirof[q] + "/" + f["name"], "text": e2e.render.text(r, f["name"], f["doc"])})
    cfg = {"overrides": gen.obj(over)}
    if r.random() < .4:
        cfg["operations"] = gen.obj({r.choice(["*", "get:*"]): gen.obj({"responses": gen.obj({"default": gen.obj({"description": gen.t("d"), "content": gen.obj(
            {"application/json": gen.obj({"schema": gen.obj({"$ref": gen.t(ref())})})})})})})})
    if r.random() < .3:
        cfg["components"] = gen.obj({"schemas": gen.obj({"Cfg": gen.obj({"$ref": gen.t(ref())})})})
    cp = "/W/" + r.choice(["c.yaml", "c.json"])
    fl = {"x": "", "config": e2e.rel(r, cp, "/W"), "dir": e2e.rel(r, dirof[b], "/W"), "format": r.choice(["json", "yaml"])}
    configs = [{"path": cp, "doc": gen.obj(cfg)}]
    files.append({"path": cp, "text": e2e.render.text(r, cp, configs[0]["doc"])})
    return {"m": "cli", "want": "run", "n": 1, "pr": {"pkgs": pkgs, "decls": decls},
            "order": e2e.order([cfg]), "flags": fl, "argv": [x for k in ("config", "dir", "format") for x in ("--" + k, e2e.atroot(fl[k]))],
            "cwd": "/W", "configs": configs, "dirs": [{"path": d, "pkg": p} for p, d in dirof.items()], "before": [], "files": files}


def projects(r):
    p = e2e.Profile(overrides=1, npkgs=(1, 3), specs=(1, 2), missing=0, types=dict(bad=.05), refs=(2, 5), root=.3, ops=.3, exports=.3,
                    output=0, decoys=0, extends=.15)
    return e2e.case(r, p)


def check(ctx):
    r = ctx.rnd
    ctx.mc("EnvSteps", {"Types": "<- SmallTypes", "Overs": "<- SmallOvers", "Starts": "<- SmallStarts"},
           inv=["Replaced", "Exact", "Same0", "Frame"], props=["Ends"], what="orders of finding out what references denote")
    e2e.judge(ctx, [case(r) for _ in range(ctx.n(600, 6000))], "overridden types among like ones")
    e2e.judge(ctx, [projects(r) for _ in range(ctx.n(250, 2500))], "projects with overrides")

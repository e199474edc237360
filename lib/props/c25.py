"""C25: the library, called again and again and at the same time."""
import random
import e2e
import gen
import render

MODEL = {"Places": "{1, 2}", "Versions": "{1, 2, 3}", "BadVersion": "3", "Options": "{1}", "Fmts": '{"json", "bad"}', "BadFmt": '"bad"',
         "MaxCalls": "3", "MaxActive": "2", "MaxPuts": "1", "Cancels": "TRUE", "Record": "FALSE"}
FMTS = ["json", "json:pretty", "yaml", "yml", "go"]
BAD = ["", "JSON", "xml", "json ", "pretty", "toml"]


def version(r, seed, p, bad, like=None):
    """Files of place p: a project made from a seed of its own, so that places and versions have like names."""
    prof = e2e.Profile(npkgs=(1, 3), specs=(1, 2), missing=0, types=dict(bad=0, tags=r.choice([.3, .5])), refs=(1, 4), exports=.4,
                       extends=0, decoys=.1, second=.2, clash=0, strict_comps=0)
    P = e2e.Project(random.Random(seed), prof)
    P.r = r
    P.specs()
    if bad:
        cov = sorted(P.covered)
        kind = r.choice(["specs", "resolve", "merge", "load"])
        if kind == "load":
            P.pkg(r.choice(cov))["broken"] = True
        elif kind == "specs":
            pk = P.pkg(r.choice(cov))
            name = r.choice(sorted(e2e.BADSPEC))
            pk["files"] = [f for f in pk["files"] if f["name"] != name] + [{"name": name, "bad": r.choice(e2e.BADSPEC[name])}]
        elif kind == "merge":
            a = e2e.specof(r, P, r.choice(cov))
            b = e2e.specof(r, P, r.choice(cov), (a,))
            x, y = r.sample([gen.num(1), gen.t("1"), gen.NULL, gen.arr([]), gen.obj({"a": gen.num(1)})], 2)
            a["doc"], b["doc"] = e2e.setdoc(a["doc"], ["x-clash"], x), e2e.setdoc(b["doc"], ["x-clash"], y)
        else:
            f = e2e.specof(r, P, r.choice(cov))
            f["doc"] = e2e.setdoc(f["doc"], ["x-miss"], gen.obj({"$ref": gen.t("go://%s#/Nope" % P.root)}))
    P.source()
    P.specfiles()
    at = lambda q: "/W/p%d%s" % (p, q[2:])
    files = [dict(f, path=at(f["path"])) for f in P.files]
    return P, {"pr": P.tla(), "dirs": [{"path": at(P.dirof[q]), "pkg": q} for q in P.paths], "files": files}


def history(r, h):
    """A history of module LibSteps on random files and options."""
    seed = r.random()
    places, all_, tops = [], [], []
    for p in (1, 2):
        vs = []
        for v in (1, 2, 3):
            P, x = version(r, seed if r.random() < .6 else r.random(), p, v == 3)
            vs.append(x)
            all_.append(P)
            tops.append((p, v, "/W/p%d%s" % (p, P.dirof[P.root][2:])))
        places.append(vs)
    prims = [{"k": "log"}, {"k": "nolog"}, {"k": "error"}]
    cfgs = []

    def prim(**kw):
        prims.append(kw)
        return len(prims)
    cwd = r.choice(["/W", "/W", r.choice(tops)[2], "/W/p1"])
    dirs = {}
    for p, v, d in tops:
        dirs[p, v] = prim(k="dir", path=d if r.random() < .5 else e2e.rel(r, d, cwd))
    choices = {}
    for o in (1, 2):
        c = r.choice(all_[:2]).config()
        cfgs.append(c)
        mine = []
        root = {k: x for k, x in c.items() if k not in ("operations", "overrides")}
        for k, d in (("root", root), ("operations", {"operations": c["operations"]} if "operations" in c else {}),
                     ("overrides", {"overrides": c["overrides"]} if "overrides" in c else {})):
            if d or r.random() < .2:
                mine.append(prim(k=k, doc=gen.obj(d), text=render.jtext(gen.obj(d))))
        choices[o] = mine
    steps = [{"do": "put", "n": 1, "place": 1}, {"do": "put", "n": 1, "place": 2}]
    fails = r.random() < .2
    fav = r.choice(FMTS + ["go"])
    now = {1: 1, 2: 1}
    where = lambda p: dirs[p, now[p] if r.random() < .95 else r.choice([1, 2, 3])]
    for e in h:
        s = {"do": e["do"], "n": e["n"]}
        if e["do"] == "put":
            s["place"] = e["place"]
            now[e["place"]] = e["n"]
        elif e["do"] == "cancel":
            s["ms"] = r.choice([0, 0, 1, 20, 100, 300, 600])
        elif e["do"] == "begin":
            s["kind"] = e["kind"]
            if e["kind"] == "format":
                # mostly few formats, each several times
                s["of"], s["fmt"] = e["of"], r.choice(BAD) if e["fmt"] == "bad" else e["fmt"] if r.random() < .5 else fav
            else:
                opts = list(choices[e["opt"]])
                if r.random() < .15:       # some are given twice, and the last one counts
                    opts = choices[3 - e["opt"]] + opts
                elif r.random() < .3:
                    r.shuffle(opts)
                if r.random() < .1:
                    opts.insert(r.randint(0, len(opts)), r.choice([1, 2]))
                if fails and r.random() < .1:
                    opts.insert(r.randint(0, len(opts)), 3)
                ds = [where(e["place"])]
                if r.random() < .1:
                    ds.insert(0, where(3 - e["place"]))
                if cwd.startswith("/W/p%d/" % e["place"]) and r.random() < .3 or cwd in ("/W", "/W/p1") and r.random() < .03:
                    ds = []                # the working directory
                for d in ds:
                    k = 0 if not opts else r.randint(0, len(opts)) if len(ds) == 1 else len(opts)
                    opts.insert(k, d)
                s["opts"] = opts
                s["early"] = "yes" if r.random() < .03 else "no"
        steps.append(s)
    # formats at the end, which take little time
    scans = [e["n"] for e in h if e["do"] == "begin" and e["kind"] == "scan"]
    n = max(e["n"] for e in h if e["do"] == "begin")
    atonce = r.choice([1, 2, 3])
    for _ in range(r.choice([0, 3, 6])):
        batch = range(n + 1, n + 1 + r.randint(1, atonce))
        n = batch[-1]
        steps += [{"do": "begin", "n": k, "kind": "format", "of": r.choice(scans), "fmt": r.choice(FMTS) if r.random() < .4 else fav} for k in batch]
        steps += [{"do": "end", "n": k} for k in batch]
    return {"m": "lib", "cwd": cwd, "places": places, "prims": prims, "steps": steps, "order": e2e.order(cfgs)}


def check(ctx):
    r = ctx.rnd
    ctx.mc("LibSteps", dict(MODEL, Options="{1, 2}") if ctx.thorough else MODEL, inv=["Right", "OptionsKept"],
           props=["ResultsStay", "AllEnd"], what="calls of a process, at the same time and one after another")
    fm = "{%s}" % ", ".join('"%s"' % f for f in FMTS + ["bad"])
    more = dict(MODEL, Options="{1, 2}", Fmts=fm, Record="TRUE")
    sets = [("histories of calls at the same time", dict(more, MaxCalls="8", MaxActive="4", MaxPuts="1", Cancels="FALSE"), 40, 500),
            ("histories of calls one after another", dict(more, MaxCalls="7", MaxActive="1", MaxPuts="4", Cancels="FALSE"), 20, 250),
            ("histories with calls that are cancelled", dict(more, MaxCalls="6", MaxActive="3", MaxPuts="1", Cancels="TRUE"), 20, 250)]
    for what, consts, quick, thorough in sets:
        n = ctx.n(quick, thorough)
        hs = ctx.behaviours("LibSteps", consts, max(300, 3 * n), 120, what=what, inv=["Right", "EmitHist"])
        score = lambda h: sum(e["do"] == "begin" and e["kind"] == "scan" for e in h)
        hs = [h for h in hs if score(h) > 1]
        cases = [history(r, h) for h in r.sample(hs, min(n, len(hs)))]
        ctx.judge("LibTrace", "LibAccepts", cases, what=what, race=True, deadline=150, jobs=4)

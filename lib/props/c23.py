"""C23: settings of a run."""
import copy
import os
import e2e
import gen
import gotypes as g

DIRS = {"/W": "ex.com/w", "/W/f": "ex.com/w/f", "/W/o": "ex.com/w/o", "/W/b": "ex.com/w/b", "/W/c": "ex.com/w/c", "/W/e": "ex.com/w/e"}


def scenario(r, c):
    """A run for a scenario of module ConfigSteps: a package in each directory tells which one was scanned."""
    c = copy.deepcopy(c)
    files = [{"path": "/W/go.mod", "text": "module ex.com/w\n\ngo 1.14\n"}, {"path": "/W/x", "dir": True}]
    pkgs = []
    for d, p in DIRS.items():
        files.append({"path": d + "/p.go", "text": "package p\n"})
        doc = gen.obj({"openapi": gen.t("3.0.0"), "x-dir": gen.t(d)})
        pkgs.append({"path": p, "imports": [], "files": [{"name": "oapi.json", "doc": doc}], "cmts": [], "broken": False})
        files.append({"path": d + "/oapi.json", "text": e2e.render.text(r, "oapi.json", doc)})
    outs = ["/W/x/f.json"] + [d + "/o.json" for d in DIRS]
    before = [{"path": p, "state": "absent"} for p in outs]
    flags = {k: v for k, v in c["flags"].items() if v != "" or k == "x"}
    argv = []
    ks = [k for k in flags if k != "x"]
    r.shuffle(ks)
    for k in ks:
        argv += ["--%s=%s" % (k, e2e.atroot(flags[k]))] if r.random() < .5 else ["--" + k, e2e.atroot(flags[k])]
    for x in c["configs"]:
        files.append({"path": x["path"], "text": e2e.atroot(e2e.render.text(r, x["path"], x["doc"]))})
    return {"m": "cli", "want": "run", "n": 1, "pr": {"pkgs": pkgs, "decls": {}}, "order": [], "flags": flags, "argv": argv,
            "cwd": "/W", "configs": c["configs"], "dirs": [{"path": d, "pkg": p} for d, p in DIRS.items()], "before": before,
            "files": files}


SETTINGS = {"dir": ["f", "o", "b", "c", "e", "."], "format": ["json", "json:pretty", "yaml", "yml", "go"], "output": []}


def rich(r):
    """Random sections, operations and overrides, in one file or two, and settings from anywhere."""
    p = e2e.Profile(npkgs=(1, 3), specs=(1, 2), missing=0, types=dict(bad=0), refs=(0, 2), root=1, ops=.8, overrides=.6,
                    extends=.9, decoys=0, paths=1, exports=.1, formats=.5)
    return e2e.case(r, p)


def relative(r):
    """Paths relative to whatever they are relative to: configuration, extended file and working directory apart."""
    p = e2e.Profile(npkgs=(2, 3), specs=(1, 1), missing=0, types=dict(bad=0), refs=(0, 0), exports=0, root=.5, ops=.3, overrides=0, second=0, decoys=0)
    P = e2e.Project(r, p)
    P.specs()
    P.source()
    P.specfiles()
    files, before, configs = list(P.files), [], []
    fl, own, base = {"x": ""}, {}, {}
    cwd = r.choice(["/W", "/W/run/here", "/W/c", P.dirof[P.paths[0]]])
    files.append({"path": cwd, "dir": True})
    cp = r.choice(["/W/c/cfg.yaml", "/W/cfg.json", "/W/c/d/e.yml", P.dirof[P.paths[0]] + "/cfg.yml"])
    bp = r.choice(["/W/c/base.yaml", "/W/base.json", "/W/z/y.yml"])
    dirs = [{"path": P.dirof[q], "pkg": q} for q in P.paths]
    d = [P.dirof[r.choice(P.paths)] for _ in range(3)]
    fl["config"] = e2e.rel(r, cp, cwd)
    ext = r.random() < .7
    if ext:
        own["extends"] = gen.t(e2e.rel(r, bp, e2e.dirname(cp)))
    if r.random() < .4:
        fl["dir"] = e2e.rel(r, d[0], cwd)
    if r.random() < .6:
        own["dir"] = gen.t(e2e.rel(r, d[1], e2e.dirname(cp)))
    if r.random() < .6 or ("dir" not in fl and "dir" not in own):
        # relative to the directory of the file that is given
        base["dir"] = gen.t(e2e.rel(r, d[2], e2e.dirname(cp)))
    if not ext and "dir" not in fl and "dir" not in own:
        own["dir"] = base["dir"]
    scanned = d[0] if "dir" in fl else d[1] if "dir" in own and own["dir"] != base.get("dir") else d[2] if ext or own.get("dir") == base.get("dir") else None
    outs = ["/W/o1/a", "/W/o2/b", "/W/o3/c"]
    for o in outs:
        files.append({"path": e2e.dirname(o), "dir": True})
        if r.random() < .3:
            files.append({"path": o, "text": "old"})
    if r.random() < .4:
        fl["output"] = r.choice(["stdout", "stderr", e2e.rel(r, outs[0], cwd)])
    if r.random() < .7:
        own["output"] = gen.t(r.choice(["stdout", "stderr"] + [e2e.rel(r, outs[1], scanned)] * 4) if scanned else "stderr")
    if r.random() < .7:
        base["output"] = gen.t(r.choice(["stdout", "stderr"] + [e2e.rel(r, outs[2], scanned)] * 4) if scanned else "stderr")
    for k, w in (("own", own), ("base", base)):
        if r.random() < .5:
            w["format"] = gen.t(r.choice(SETTINGS["format"]))
    if r.random() < .4:
        fl["format"] = r.choice(SETTINGS["format"])
    if ext and r.random() < .25:
        # stated, and empty: as good as nowhere
        k = r.choice(["output", "format"])
        own[k] = r.choice([gen.t(""), gen.t(""), gen.NULL])
        base.setdefault(k, gen.t("json" if k == "format" else "stderr"))
    cfg = P.config()
    for k, v in cfg.items():
        x = r.random()
        if x < .3:
            own[k] = v
        elif x < .6:
            base[k] = v
        elif "o" in v:
            own[k], base[k] = e2e.split(r, v)
        else:
            own[k] = base[k] = v
    configs.append({"path": cp, "doc": gen.obj(own)})
    if bp != cp:
        configs.append({"path": bp, "doc": gen.obj(base)})
    # files where another base would lead to
    taken = {cp, bp} | {f["path"] for f in files}
    for v, right in ((fl["config"], cwd), (gen.keys(configs[0]["doc"]).get("extends", {}).get("s", "t:")[2:], e2e.dirname(cp))):
        for b in [cwd, e2e.dirname(cp), e2e.dirname(bp), "/W"] + d if v and not v.startswith("/") else []:
            at = os.path.normpath(b + "/" + v)
            if b != right and at.startswith("/W/") and at not in taken and r.random() < .7:
                taken.add(at)
                configs.append({"path": at, "doc": gen.obj({"info": gen.obj({"title": gen.t("decoy"), "version": gen.t("0"), "description": gen.t("decoy")}),
                                                            "dir": gen.t(d[0]), "format": gen.t("go"), "output": gen.t("stderr")})})
    before = [{"path": o, "state": "file"} for o in outs]
    c = e2e.finish(r, P, fl, configs, files, before, cwd, dirs)
    return c


def check(ctx):
    r = ctx.rnd
    ctx.mc("ConfigSteps", {"Scenarios": "<- Every"}, inv=["Right", "Winner", "ByObject"], props=["Ends"],
           what="all ways to state three settings in four places")
    sc = ctx.enum("ConfigEnum", {"Scenarios": "<- Every"}, spec="DumpSpec", what="scenarios of settings")
    if not ctx.thorough:
        sc = r.sample(sc, 450)
    e2e.judge(ctx, [scenario(r, c) for c in sc], "scenarios of settings")
    e2e.judge(ctx, [relative(r) for _ in range(ctx.n(250, 2500))], "relative paths")
    e2e.judge(ctx, [rich(r) for _ in range(ctx.n(200, 2500))], "extended configurations")

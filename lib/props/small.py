"""Runs of the command on the small projects of module SpecsSteps."""
import copy
import e2e
import gotypes as g
import gen
import render

WHERE = [("ex.com/m", "ex.com/m/a", "ex.com/m/b"), ("ex.com/m/z", "ex.com/m/y", "ex.com/m"), ("ex.com/m/b", "ex.com/m/b/c", "ex.com/m/a"),
         ("ex.com/m/a", "ex.com/m/internal/x", "ex.com/m/c.d")]
TYPE = {"T": {"t": {"k": "struct", "fields": []}, "exp": True}}


def project(r, pr, decls):
    """A project with other names for packages r, a and b (and q, of which there is none); decls: source of their types."""
    names = dict(zip("rab", r.choice(WHERE)))
    dirof = {v: "/W/m" + v[len("ex.com/m"):] for v in names.values()}
    files = [{"path": "/W/m/go.mod", "text": "module ex.com/m\n\ngo 1.14\n"}]
    pkgs = []

    def named(v):
        if "o" in v:
            return gen.obj({k: gen.t(x["s"][2:].replace("go://q#", "go://%s#" % names["b"])) if k == "$ref" else named(x)
                            for k, x in v["o"].items()})
        return gen.arr([named(x) for x in v["a"]]) if "a" in v else v
    for p in pr["pkgs"]:
        path = names[p["path"]]
        imp = [names[x] for x in p["imports"]]
        fs = [dict(f, doc=named(f["doc"])) if "doc" in f else f for f in p["files"]]
        files.append({"path": dirof[path] + "/p.go", "text": "package p\n\n" + "".join("import _ \"%s\"\n" % x for x in imp) + "\n" + decls})
        for f in fs:
            files.append({"path": dirof[path] + "/" + f["name"],
                          "text": f["bad"] if "bad" in f else render.text(r, f["name"], f["doc"])})
        pkgs.append({"path": path, "imports": imp, "files": fs, "cmts": [], "broken": False})
    r.shuffle(pkgs)
    return names, dirof, files, pkgs


def case(r, pr):
    # T is different in each package
    src = "type T struct {\n\tF %s\n}\n"
    names, dirof, files, pkgs = project(r, pr, "")
    kinds = dict(zip(sorted(names.values()), r.sample(["int32", "string", "bool", "float64"], 3)))
    decls = {}
    for f in files:
        if f["path"].endswith("/p.go"):
            q = next(x for x in dirof if dirof[x] + "/p.go" == f["path"])
            f["text"] += src % kinds[q]
            decls[q] = {"T": g.struct([g.field("F", g.basic(kinds[q]))])}
    root = names["r"]
    fl = {"x": "", "dir": e2e.rel(r, dirof[root], "/W")}
    if r.random() < .7:
        fl["format"] = r.choice(["json", "json:pretty", "yaml", "go"])
    return {"m": "cli", "want": "run", "n": 1, "pr": {"pkgs": pkgs, "decls": decls}, "order": [], "flags": fl,
            "argv": [a for k in ("dir", "format") if k in fl for a in ("--" + k, e2e.atroot(fl[k]))], "cwd": "/W", "configs": [],
            "dirs": [{"path": d, "pkg": p} for p, d in dirof.items()], "before": [], "files": files}

"""Random projects, configurations and runs of the command, in the form of spec/Cli.tla."""
import copy
import json
import gen
import gotypes as g
import oas
import render
import routes
from props import res

SPECS = ["oapi.yaml", "oapi.yml", "oapi.json"]
DECOYS = ["oapi.yaml.bak", "openapi.yaml", "oapi.yam", "OAPI.yaml", "xoapi.yaml", "oapi.yaml~", "oapi-2.json", "api.yml", "oapi.toml",
          ".oapi.yaml", "oapi.jsonx", "sub/oapi.yaml", "testdata/oapi.json", "oapi"]
MODULES = [("ex.com/m", "/W/m"), ("example.org/x.y-z/v2", "/W/w s"), ("ex.com/m", "/W/m[1]"), ("m", "/W/a/b")]


class Profile:
    npkgs = (1, 4)
    second = .3          # a second module
    specs = (0, 2)       # specification files of a package
    decoys = .3
    bad = 0              # an unreadable specification
    broken = 0           # Go code with errors
    clash = 0            # specifications which contradict each other
    refs = (1, 5)
    missing = .03        # references to nothing
    exports = .3
    dupexports = .02
    badexports = 0
    root = .5            # sections in the configuration
    ops = .4
    overrides = .2
    types = {}           # options of the generator of types
    odd = .3
    docs = True          # other content than references
    paths = .6
    local = .1
    share = .3
    output = .2
    formats = 1          # share of runs with a format flag
    extends = .3
    strict_comps = .02
    subptr = .2          # references to what is inside of types

    def __init__(self, **kw):
        for k in kw:
            assert hasattr(self, k), k
        self.__dict__.update(kw)


class Sections(oas.Oas):
    """Sections whose examples have nothing that looks like a reference."""
    def any(self):
        return res.strip(super().any())


class Project:
    def __init__(self, r, p):
        self.r, self.p = r, p
        self.files = []
        # a file is a specification if it has the key, whatever its value
        self.openapi = r.choice([gen.t("3.0.0")] * 9 + [gen.t(""), gen.num(3), gen.NULL, gen.obj({}), gen.t("2.0"), gen.arr([])]) if r.random() < .3 else gen.t("3.0.0")
        mod, self.moddir = r.choice(MODULES[:1] * 3 + MODULES)
        subs = ["", "/a", "/b", "/a/c", "/internal/d", "/api.v1"]
        n = r.randint(*p.npkgs)
        names = [mod + s for s in r.sample(subs, min(n, len(subs)))]
        self.dirof = {x: self.moddir + x[len(mod):] for x in names}
        self.second = n > 1 and r.random() < p.second
        if self.second:
            k = 0        # which imports nothing
            names[k] = r.choice(["ex.com/n", "ex.com/n/sub"])
            self.dirof[names[k]] = "/W/n" + names[k][len("ex.com/n"):]
        if any("internal" in x for x in names):   # only importable from within
            pass
        self.paths = names
        opts = dict(depth=2, anon=r.random() < .4, like=.4, time=False, arrays=False, ntypes=(1, 3), bad=.02, tags=.4, rich=False, loops=False)
        opts.update(p.types)
        self.G = g.Gen(r, pkgs=names, **opts)
        self.decls = self.G.decls
        self.pkgs = []
        for i, path in enumerate(names):
            imps = set()
            for t in self.decls[path].values():
                g.used(t, imps)
            imps.discard(path)
            ok = [q for q in names[:i] if "/internal/" not in q or path.startswith(mod)]
            more = [q for q in ok if q not in imps and r.random() < (.45 if q not in imps else 0)]
            self.pkgs.append({"path": path, "imports": sorted(imps | set(more)), "files": [], "cmts": [], "broken": False})
        self.root = names[-1] if r.random() < .8 else r.choice(names)
        self.covered = self.cover(self.root)
        self.exports()

    def pkg(self, path):
        return next(x for x in self.pkgs if x["path"] == path)

    def cover(self, root):
        s, todo = set(), [root]
        while todo:
            x = todo.pop()
            if x not in s:
                s.add(x)
                todo += self.pkg(x)["imports"]
        return s

    def ptr(self, where=None):
        """Pointer to a type, mostly of the packages which are covered."""
        r = self.r
        paths = [q for q in self.paths if q in self.covered or r.random() < self.p.missing]
        q = where or r.choice(paths)
        n = r.choice(self.G.names[q])
        if r.random() < self.p.subptr:
            toks = r.choice(self.G.paths(q, n, 3))
            if self.addressable(q, toks):
                return q, toks
        return q, [n]

    def addressable(self, q, toks):
        """Fields which are not exported cannot be addressed; rarely wanted. Structs without name
        are left to what refers to them."""
        t = self.decls[q][toks[0]]
        for k in toks[1:]:
            u = self.G.und(t)
            t = next(f["t"] for f in u["f"] if f["n"] == k) if u["k"] == "struct" else u["t"]
        if len(toks) > 1 and t["k"] == "struct":
            return False
        return all(t[0].isupper() or t in ("[]", "*") for t in toks[1:]) or self.r.random() < .02

    def exports(self):
        r = self.r
        taken = set()
        names = ["E%d" % i for i in range(9)] + ["a.b", "x-y", "é", "Page", "A~B"]
        for pk in self.pkgs:
            for n in self.G.names[pk["path"]]:
                if r.random() >= self.p.exports:
                    continue
                x = r.random()
                if n in taken and r.random() >= self.p.dupexports:
                    x = .5 if x < .4 else .95 if .8 <= x < .9 else x
                elif x < .4 or .8 <= x < .9:
                    taken.add(n)
                if x < .4:
                    c = "//openapi:schema " + n
                elif x < .8:
                    c = "//openapi:schema %s %s" % (names.pop(r.randrange(len(names))) if names else "Z" + n, n)
                elif x < .9:
                    c = "//openapi:schema %s" % g.text(pk["path"], [n])
                else:
                    c = "//openapi:schema %s %s" % (names.pop(r.randrange(len(names))) if names else "Z" + n, g.text(pk["path"], [n]))
                pk["cmts"].append(c)
            if r.random() < self.p.badexports:
                pk["cmts"].append(r.choice(["//openapi:schema", "//openapi:scheme X", "//openapi:schema A B C",
                                            "//openapi:schema T ex.com/%zz#/T"]))
            if r.random() < .1:
                pk["cmts"].append(r.choice(["//openapi:root", "// openapi:schema Nope", "//openapi"]))

    def source(self):
        r = self.r
        mod = next((m for m in MODULES if m[1] == self.moddir), None)[0]
        req = "\nrequire ex.com/n v0.0.0\n\nreplace ex.com/n => %s\n" % json.dumps("@ROOT@/n") if self.second else ""
        self.files.append({"path": self.moddir + "/go.mod", "text": "module %s\n\ngo 1.14\n%s" % (mod, req)})
        if self.second:
            self.files.append({"path": "/W/n/go.mod", "text": "module ex.com/n\n\ngo 1.14\n"})
        for pk in self.pkgs:
            path = pk["path"]
            d = self.dirof[path]
            cm = list(pk["cmts"])
            decls = self.decls[path]
            where = {}
            for c in cm:
                where.setdefault(r.choice(sorted(decls) + [""]), []).append(c)
            items = list(decls.items())
            cut = r.randint(0, len(items)) if len(items) > 1 and r.random() < .4 else len(items)
            imported = any(path in x["imports"] for x in self.pkgs)
            name = r.choice(["p", "p", "q"] if imported else ["p", "main"])
            parts = [dict(items[:cut])] + ([dict(items[cut:])] if cut < len(items) else [])
            for i, part in enumerate(parts):
                w = {k: v for k, v in where.items() if k in part or (k == "" and i == 0)}
                blank = pk["imports"] if i == 0 else []
                s = g.source(part, path, comments=w, name=name, blank=blank, r=r)
                if pk["broken"] and i == 0:
                    s += r.choice(["\nvar x int = \"text\"\n", "\nfunc {\n", "\ntype Q Missing\n", "\nvar a, a int\n"])
                self.files.append({"path": "%s/f%d.go" % (d, i), "text": s})

    # ---------------------------------------------------------- documents

    def ref(self, pkg=None):
        """Text of a reference in a file of package pkg."""
        r, p = self.r, self.p
        if r.random() < p.local or not p.refs[1]:
            return r.choice(["#/components/schemas/L", "#/paths/~1x", "#", "#/a~0b", "other.yaml#/x", "./a/b.json#/C"])
        if r.random() < p.missing:
            return r.choice(["go://ex.com/none#/T", "go://%s#/Nope" % self.root, "http://ex.com/s.json#/A", "ftp://x#/y",
                             "go://%s#/%s/Zz" % (self.root, self.G.names[self.root][0])])
        if pkg and r.random() < .5:
            q, toks = self.ptr(pkg)
            return g.text("", toks)
        return g.text(*self.ptr())

    def content(self, pkg, paths=True):
        """A specification."""
        r, p = self.r, self.p
        v = gen.obj({k: x for k, x in gen.keys(res.strip(gen.doc(r, 2, p.odd))).items() if k not in ("paths", "components", "$ref")}
                    ) if p.docs else gen.obj({})
        o = dict(gen.keys(v))
        if r.random() < .4:
            o["info"] = gen.obj({"title": gen.t("t"), "version": gen.t("1")})
        ps = {}
        for _ in range(r.randint(0, 3) if r.random() < p.paths else 0):
            item = {}
            for m in r.sample(oas.METHODS, r.randint(1, 2)):
                op = {"responses": gen.obj({r.choice(["200", "default", "404"]): gen.obj({
                    "content": gen.obj({"application/json": gen.obj({"schema": gen.obj({"$ref": gen.t(self.ref(pkg))})})})})})}
                if r.random() < .3:
                    op = {}
                if r.random() < .4:
                    op["summary"] = gen.t("s")
                item[m] = gen.obj(op)
            if r.random() < .1:
                item["$ref"] = gen.t(self.ref(pkg))
            ps["/" + r.choice(["a", "b", "pets/{id}", "x.y", "~", "é", "a/b/c", ""]) + r.choice(["", "", "1", "2"])] = gen.obj(item)
        if ps:
            o["paths"] = gen.obj(ps)
        s = {}
        for _ in range(r.randint(0, 2)):
            s[r.choice(["L", "M", "zz", "a.b"])] = gen.obj({"type": gen.t("string")}) if r.random() < .5 else gen.obj({"$ref": gen.t(self.ref(pkg))})
        if s:
            o["components"] = gen.obj({r.choice(["schemas", "schemas", "responses"]): gen.obj(s)})
        v = gen.obj(o)
        for _ in range(r.randint(*p.refs)):
            x = gen.obj({"$ref": gen.t(self.ref(pkg))})
            v = self.place(v, x)
        o = dict(gen.keys(v))
        o["openapi"] = self.openapi
        ks = list(o.items())
        r.shuffle(ks)
        return gen.obj(dict(ks))

    def place(self, v, x):
        r = self.r
        o = dict(gen.keys(v))
        ks = [k for k in o if k not in ("paths", "components", "openapi", "info", "$ref") and ("o" in o[k] or "a" in o[k])]
        if ks and r.random() < .6:
            k = r.choice(sorted(ks))
            o[k] = res.put(r, o[k], x, self.p)
        else:
            k = gen.key(r, self.p.odd, plain=("x-a", "x-b", "c", "d.e"))
            while k in o or k in ("$ref", "paths", "components", "openapi"):
                k += "_"
            o[k] = x if r.random() < .5 else res.put(r, gen.obj({}), x, self.p)
        return gen.obj(o)

    def part(self, v, frac=.6):
        """Part of a document."""
        if "o" not in v:
            return v
        return gen.obj({k: self.part(x, frac) for k, x in v["o"].items() if self.r.random() < frac or k == "openapi"})

    def specs(self):
        """Specification files, each with keys of its own and some shared with others."""
        r, p = self.r, self.p
        whole = {}
        n = 0
        for pk in self.pkgs:
            k = r.randint(*p.specs)
            names = r.sample(SPECS, min(k, 3))
            for name in names:
                v = self.content(pk["path"])
                # what is there already is stated alike, or not stated
                v = self.agree(v, whole, pk["path"])
                if pk["path"] in self.covered:
                    whole = self.union(whole, self.bound(v, pk["path"]))
                if whole and r.random() < p.share:
                    v = self.add(v, self.part(gen.obj(whole), .4))
                if r.random() < .06:
                    v = gen.obj({q: x for q, x in gen.keys(v).items() if q != "openapi"})
                n += 1
                pk["files"].append({"name": name, "doc": v})
            if r.random() < p.decoys:
                for d in r.sample(DECOYS, r.randint(1, 3)):
                    pk["files"].append({"name": d, "doc": self.content(None)})
        fs = [(pk, f) for pk in self.pkgs for f in pk["files"] if f["name"] in SPECS and "openapi" in gen.keys(f["doc"])
              and pk["path"] in self.covered]
        if len(fs) > 1 and r.random() < p.clash:
            a, b = r.sample(fs, 2)
            self.disagree(a[1]["doc"], b[1])
        if fs and r.random() < p.bad:
            pk = self.pkg(r.choice(sorted(self.covered if r.random() < .8 else self.paths)))
            have = [f["name"] for f in pk["files"]]
            name = r.choice([s for s in SPECS if s not in have] or SPECS)
            pk["files"] = [f for f in pk["files"] if f["name"] != name] + [{"name": name, "bad": r.choice(
                ["{", "openapi: [", "\tx: 1", "- a", "openapi: 3\n  x: 1\n y", '{"openapi": 1,}', "text"])
                if name != "oapi.json" else r.choice(["{", '{"openapi":1,}', "", "[]", "openapi: 3", "{} {}"])}]

    def bound(self, v, pkg):
        if "o" in v:
            return gen.obj({k: gen.t("go://" + pkg + x["s"][7:]) if k == "$ref" and x.get("s", "").startswith("t:go://#")
                            else self.bound(x, pkg) for k, x in v["o"].items()})
        if "a" in v:
            return gen.arr([self.bound(x, pkg) for x in v["a"]])
        return v

    def union(self, whole, v):
        o = dict(whole)
        for k, x in gen.keys(v).items():
            o[k] = gen.obj(self.union(gen.keys(o[k]), x)) if k in o and ("o" in o[k] or "e" in o[k]) and ("o" in x or "e" in x) else o.get(k, x)
        return o

    def agree(self, v, whole, pkg):
        """Drops what contradicts."""
        o = {}
        for k, x in gen.keys(v).items():
            if k in whole:
                y = whole[k]
                if ("o" in x or "e" in x) and ("o" in y or "e" in y):
                    x = self.agree(x, gen.keys(y), pkg)
                elif self.bound(x, pkg) != y:
                    continue
            o[k] = x
        return gen.obj(o)

    def add(self, v, w):
        o = dict(gen.keys(v))
        for k, x in gen.keys(w).items():
            if k not in o:
                o[k] = x
            elif ("o" in o[k] or "e" in o[k]) and ("o" in x or "e" in x):
                o[k] = self.add(o[k], x)
        return gen.obj(o)

    def disagree(self, a, f):
        """Gives file f another value at a place of a."""
        r = self.r
        path, v = [], a
        while "o" in v:
            k = r.choice(sorted(v["o"]))
            path.append(k)
            v = v["o"][k]
            if r.random() < .15:
                break
        new = r.choice([gen.t("other"), gen.num(77), gen.NULL, gen.arr([]), gen.arr([v]), gen.obj({"q": gen.num(1)}), gen.obj({})])
        if "a" in v and r.random() < .6:
            new = gen.arr(v["a"] + [gen.num(1)]) if r.random() < .5 else gen.arr(v["a"][:-1])
        if r.random() < .6:
            new = gen.near(r, v)
        for k in reversed(path):
            new = gen.obj({k: new})
        f["doc"] = self.over(f["doc"], new)
        if "openapi" not in gen.keys(f["doc"]):
            f["doc"] = gen.obj(dict(gen.keys(f["doc"]), openapi=self.openapi))

    def over(self, v, w):
        if not ("o" in v and "o" in w):
            return w
        o = dict(v["o"])
        for k, x in w["o"].items():
            o[k] = self.over(o[k], x) if k in o else x
        return gen.obj(o)

    def specfiles(self):
        for pk in self.pkgs:
            for f in pk["files"]:
                t = f["bad"] if "bad" in f else render.text(self.r, f["name"], f["doc"])
                self.files.append({"path": self.dirof[pk["path"]] + "/" + f["name"], "text": t})

    def tla(self):
        return {"pkgs": self.pkgs, "decls": {p: g.plain(d) for p, d in self.decls.items() if d}}

    # ---------------------------------------------------------- configuration

    def config(self):
        """Sections of the document, default operations and overrides."""
        r, p = self.r, self.p
        refs = ([g.text(*self.ptr()) for _ in range(2)] if p.refs[1] else []) + ["#/components/schemas/Pet"]
        o = Sections(r, p=.12, refs=refs, callbacks=False)
        c = {}
        if r.random() < p.root:
            c = dict(gen.keys(o.root()))
            if "components" in c and r.random() > p.strict_comps:
                comps = gen.keys(c["components"])
                c["components"] = gen.obj({k: gen.obj({"Cfg" + n: x for n, x in gen.keys(m).items()}) for k, m in comps.items()})
        if r.random() < p.ops:
            pats = r.sample(["*", "get:*", "post:*", "/a*", "delete:/b", "/pets/{id}", "get:/x.y", "PUT:/*"], r.choice([1, 1, 2]))
            c["operations"] = gen.obj({q: o.operation(0) for q in sorted(pats)})
        if r.random() < p.overrides:
            ov = {}
            for _ in range(r.randint(1, 2)):
                q, toks = self.ptr()
                if r.random() < .15:
                    t = r.choice(["go://ex.com/none#/T", "http://ex.com/s.json#/A", "go://%s#/Nope" % self.root])
                else:
                    t = g.text(q, toks)
                ov[t] = self.override(refs)
            c["overrides"] = gen.obj(ov)
        return c

    def override(self, refs):
        r = self.r
        x = r.random()
        if x < .3:
            return gen.obj({"type": gen.t("string"), "format": gen.t("custom")})
        if x < .45:
            return gen.obj({"$ref": gen.t(r.choice(refs))})
        if x < .6:
            return gen.obj({"type": gen.t("object"), "properties": gen.obj({"x": gen.obj({"$ref": gen.t(r.choice(refs))})})})
        o = Sections(r, refs=refs)
        v = o.schema(1)
        return gen.obj({k: x for k, x in gen.keys(v).items() if k not in ("externalDocs", "xml", "discriminator")})


def order(cfgs):
    """Keys of the maps of the configurations, in a fixed order."""
    s = set()
    for c in cfgs:
        for k in ("operations", "overrides"):
            if k in c:
                s |= set(gen.keys(c[k]))
    return sorted(s)


def run(r, P, cfg, want="run", n=1, flags=None, setup=None, settings=True):
    """A run of the command on project P with configuration cfg, stated in one file, or in two."""
    P.source()
    P.specfiles()
    files, configs = list(P.files), []
    fl = dict(flags or {}, x="")
    cwd = "/W"
    before = []
    dirs = [{"path": P.dirof[q], "pkg": q} for q in P.paths]
    own = dict(cfg)
    cfs = [own]
    if r.random() < .2 and "format" not in fl:
        own["format"] = gen.t(r.choice(["json", "yaml", "go", "json:pretty", "yml"]))
    elif "format" not in fl and r.random() < P.p.formats:
        fl["format"] = r.choice(["json", "json:pretty", "yaml", "yml", "go"])
    if own and r.random() < P.p.extends:      # part of it comes from the extended file
        base = {}
        for k in sorted(own):
            x = r.random()
            if x < .4:
                base[k] = own.pop(k)
            elif x < .6 and "o" in own[k]:
                own[k], base[k] = split(r, own[k])
        clash(r, own, base)
        cfs = [own, base]
    if own or len(cfs) > 1 or r.random() < .2:
        ext = [".yaml", ".yml", ".json"]
        cp = "/W/" + r.choice(["cfg", "c/d/cfg", "c.x/cfg"]) + r.choice(ext)
        if len(cfs) > 1:
            bp = "/W/" + r.choice(["base", "c/base", "z/y/base"]) + r.choice(ext)
            own["extends"] = gen.t(rel(r, bp, dirname(cp)))
            configs.append({"path": bp, "doc": gen.obj(cfs[1])})
        configs.append({"path": cp, "doc": gen.obj(own)})
        fl["config"] = rel(r, cp, cwd)
    rootdir = P.dirof[P.root]
    x = r.random()
    if "dir" not in fl and x < .6 or not (configs and "extends" not in own):
        fl.setdefault("dir", rel(r, rootdir, cwd))
    else:
        own["dir"] = gen.t(rel(r, rootdir, dirname(configs[-1]["path"])))
        configs[-1]["doc"] = gen.obj(own)
    if r.random() < P.p.output:
        out = r.choice(["stderr", "/W/out.json", "/W/o/x.txt", "stdout"])
        if out.startswith("/"):
            st = r.choice(["absent", "file"])
            before.append({"path": out, "state": st})
            files.append({"path": dirname(out), "dir": True} if st == "absent" else
                         {"path": out, "text": r.choice(["", "old", "x" * 100000])})
        fl["output"] = out if not out.startswith("/") else rel(r, out, cwd)
    return finish(r, P, fl, configs, files, before, cwd, dirs, want, n)


def finish(r, P, fl, configs, files, before, cwd, dirs, want="run", n=1, extra=()):
    for c in configs:
        files.append({"path": c["path"], "text": c["bad"] if "bad" in c else atroot(render.text(r, c["path"], c["doc"]))})
    argv = []
    for k in ("config", "dir", "format", "output"):
        if k in fl:
            argv += ["--%s=%s" % (k, atroot(fl[k]))] if r.random() < .5 else ["--" + k, atroot(fl[k])]
    argv += list(extra)
    return {"m": "cli", "want": want, "n": n, "pr": P.tla(), "order": order([gen.keys(c["doc"]) for c in configs if "doc" in c]),
            "flags": fl, "argv": argv, "cwd": cwd, "configs": configs, "dirs": dirs, "before": before, "files": files}


def atroot(s):
    return s.replace("/W/", "@ROOT@/") if s != "/W" else "@ROOT@"


def dirname(p):
    return p.rsplit("/", 1)[0] or "/"


def rel(r, path, base):
    """One of the ways to write path relative to base, or as it is."""
    if r.random() < .2:
        return path
    a, b = path.strip("/").split("/"), base.strip("/").split("/")
    while a and b and a[0] == b[0]:
        a, b = a[1:], b[1:]
    s = "/".join([".."] * len(b) + a) or "."
    return r.choice(["", "", "./"]) + s


def split(r, v):
    """An object as two which have it as union."""
    a, b = {}, {}
    for k, x in v["o"].items():
        y = r.random()
        if y < .4:
            a[k] = x
        elif y < .8:
            b[k] = x
        else:
            a[k] = b[k] = x
    return gen.obj(a), gen.obj(b)


def clash(r, own, base):
    """What a file and the one it extends both state, in different words."""
    for k in ("info", "components", "externalDocs", "operations", "overrides"):
        if k in own and r.random() < .3:
            base[k] = merged(gen.keys(base.get(k, gen.obj({}))), other(r, own[k]))


def merged(a, b):
    return gen.obj(dict(a, **{k: x for k, x in gen.keys(b).items() if k not in a}))


def other(r, v, key=""):
    """The same as v, with other texts."""
    if "o" in v:
        return gen.obj({k: other(r, x, k) for k, x in v["o"].items()})
    if v.get("s", "").startswith("t:") and key in ("title", "description", "version", "summary", "url", "name", "operationId"):
        return gen.t(r.choice(["", "of base", v["s"][2:] + "0"]))
    return v


def case(r, p, want="run", n=1):
    P = Project(r, p)
    for pk in P.pkgs:
        if r.random() < p.broken:
            pk["broken"] = True
    P.specs()
    return run(r, P, P.config(), want, n)


def judge(ctx, cases, what, **kw):
    ctx.judge("CliTrace", "CliAccepts", cases, what=what, cli=True, deadline=60, **kw)


def some(ctx, n, what="whole runs", make=None, **profile):
    """Runs of the command on random projects with a profile."""
    p = Profile(**profile)
    judge(ctx, [(make or case)(ctx.rnd, p) for _ in range(ctx.n(n, 8 * n))], what)


# -------------------------------------------------------------- runs that fail

BADCONF = ["{", "info: [", "info: text\n", "servers: {}\n", "operations: []\n", "a: b: c\n", "overrides:\n  go://m#/T: 3\n"]
BADSPEC = {"oapi.yaml": ["{", "openapi: [", "openapi: 3\n  x: 1\n y", "a: b: c\n", "- a\n", "%"],
           "oapi.json": ["{", "{\"openapi\":1,}", "", "[]", "{} {}", "nul"]}
BADFLAGS = [["--format=xml"], ["--nope"], ["extra"], ["--loglevel=loud"], ["--format=JSON"], ["--dir"], ["-x"], ["--format", "json", "go"]]
BROKEN = ["\nvar x int = \"text\"\n", "\nfunc {\n", "\ntype Q Missing\n", "\nvar a, a int\n", "\nimport \"ex.com/none\"\n"]


def setdoc(v, path, x):
    o = dict(gen.keys(v))
    o[path[0]] = setdoc(o.get(path[0], gen.obj({})), path[1:], x) if len(path) > 1 else x
    return gen.obj(o)


def specof(r, P, path, avoid=()):
    """A specification file of package path, made if need be."""
    pk = P.pkg(path)
    fs = [f for f in pk["files"] if f["name"] in SPECS and "doc" in f and "openapi" in gen.keys(f["doc"]) and f not in avoid]
    if fs:
        return r.choice(fs)
    have = [f["name"] for f in pk["files"]]
    free = [s for s in SPECS if s not in have] or [f["name"] for f in pk["files"] if f["name"] in SPECS and f not in avoid]
    pk["files"] = [f for f in pk["files"] if f["name"] != free[0]]
    f = {"name": free[0], "doc": gen.obj({"openapi": P.openapi})}
    pk["files"].append(f)
    return f


def faulty(r, P, cfg, fault, dest, state="absent", out="/W/out/doc", again=False, n=1, want="run"):
    """A run of project P (which this changes) with a fault of the given kind, or none."""
    fl, extra, argv = {"x": ""}, [], []
    if not again:
        P.source()
        P.names0 = {q: next(f["text"] for f in P.files if f["path"] == P.dirof[q] + "/f0.go") for q in P.paths}
    else:
        P.files = []
    own, configs, files, before = dict(cfg), [], [], []
    dirs = [{"path": P.dirof[q], "pkg": q} for q in P.paths]
    cov = sorted(P.covered)
    cp = r.choice(["/W/c/cfg.yaml", "/W/c/cfg.json"])
    if again:
        for q in P.paths:
            for f in SPECS + ["zz.go"]:
                files.append({"path": P.dirof[q] + "/" + f, "gone": True})
        files.append({"path": "/W/c", "gone": True})
    dirname_ = P.dirof[P.root]
    # destination
    where = dest if dest != "file" else out
    if fault == "open":
        kind = r.randrange(4)
        where = ["/W/nodir/x.json", "/W/full", "/W/plain/x.json", "/W/vacant"][kind]
        files.append([{"path": "/W/c", "dir": True}, {"path": "/W/full/in/it", "text": "x"}, {"path": "/W/plain", "text": "x"},
                      {"path": where, "dir": True}][kind])
        before.append({"path": where, "state": "bad"})
    elif dest == "file":
        before.append({"path": out, "state": state})
        if not again:
            files.append({"path": out, "text": r.choice(["", "old", "{}", "x" * 200000])} if state == "file" else
                         {"path": dirname(out), "dir": True})
    if dest != "stdout" or r.random() < .3:
        if r.random() < .5:
            fl["output"] = where if dest != "file" and fault != "open" else rel(r, where, "/W")
        else:
            own["output"] = gen.t(where if dest != "file" and fault != "open" else rel(r, where, dirname_))
    # the directory
    scan = dirname_
    if fault == "load":
        kind = r.randrange(4)
        if kind == 0:
            scan = "/W/none/x"
        elif kind == 1:
            scan = "/W/empty"
            files.append({"path": scan, "dir": True})
        else:
            q = r.choice(cov)
            P.pkg(q)["broken"] = True
            name = P.names0[q].split("\n")[0]
            files.append({"path": P.dirof[q] + "/zz.go", "text": name + "\n" + r.choice(BROKEN)})
    if r.random() < .6:
        fl["dir"] = rel(r, scan, "/W")
    else:
        own["dir"] = gen.t(rel(r, scan, "/W/c"))
    # specifications
    if fault == "specs":
        pk = P.pkg(r.choice(cov))
        if r.random() < .7:
            name = r.choice(sorted(BADSPEC))
            pk["files"] = [f for f in pk["files"] if f["name"] != name] + [{"name": name, "bad": r.choice(BADSPEC[name])}]
        else:
            f = specof(r, P, pk["path"])
            f["doc"] = setdoc(f["doc"], ["x-bad", "$ref"], gen.t("go://ex.com/%zz#/T"))
    if fault == "merge":
        a = specof(r, P, r.choice(cov))
        if r.random() < .7 or len(cov) < 2:
            b = specof(r, P, r.choice(cov), (a,))
            path = r.choice([["x-clash"], ["paths", "/clash", "get"], ["components", "schemas", "Clash", "type"]])
            x, y = r.sample([gen.num(1), gen.t("1"), gen.NULL, gen.arr([]), gen.obj({"a": gen.num(1)}), gen.obj({})], 2)
            a["doc"], b["doc"] = setdoc(a["doc"], path, x), setdoc(b["doc"], path, y)
        else:
            a["doc"] = setdoc(a["doc"], ["components", "schemas", "Clash"], gen.obj({"type": gen.t("string")}))
            own["components"] = setdoc(own.get("components", gen.obj({})), ["schemas", "Clash"], gen.obj({"type": gen.t("string")}))
    if fault == "resolve":
        f = specof(r, P, r.choice(cov))
        t = r.choice(["go://ex.com/none#/T", "go://%s#/Nope" % P.root, "http://ex.com/s.json#/A", "go://#/Nope",
                      "go://%s#/%s/Zz/Zz" % (P.root, P.G.names[P.root][0])])
        f["doc"] = setdoc(f["doc"], r.choice([["x-miss"], ["paths", "/miss", "get", "responses", "200"], ["components", "schemas", "Miss"]]),
                          gen.obj({"$ref": gen.t(t)}))
    # format
    if fault == "format":
        own["format"] = gen.t(r.choice(["xml", "JSON", "yaml ", "json:", "pretty"]))
    elif r.random() < .8:
        if r.random() < .6:
            fl["format"] = r.choice(["json", "json:pretty", "yaml", "yml", "go"])
        else:
            own["format"] = gen.t(r.choice(["json", "json:pretty", "yaml", "yml", "go"]))
    if fault == "flags":
        extra = r.choice(BADFLAGS)
        fl["bad"] = "yes"
    # configuration
    if own or r.random() < .3 or fault == "config":
        fl["config"] = rel(r, cp, "/W")
        bad = r.randrange(5) if fault == "config" else -1
        if bad == 0:
            fl["config"] = rel(r, "/W/c/none.yaml", "/W")
        if bad == 1:
            configs.append({"path": cp, "bad": r.choice(BADCONF if cp.endswith("yaml") else ["{", "", "[]", "{\"info\":1}", "info: {}"])})
        elif bad in (2, 3):
            own["extends"] = gen.t("base.yaml")
            if bad == 3:
                configs.append({"path": "/W/c/base.yaml", "bad": r.choice(BADCONF[:2])})
        elif bad == 4:
            fl["config"] = rel(r, "/W/c", "/W")
        if bad != 1:
            configs.append({"path": cp, "doc": gen.obj(own)})
    P.specfiles()
    return finish(r, P, fl, configs, P.files + files if not again else files + P.files, before, "/W", dirs, want, n, extra)

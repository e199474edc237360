"""Resolving of references: small graphs enumerated by TLC and random documents, shared by C01 to C04."""
import gen

TYPES = ["go://ex.com/p#/A", "go://ex.com/p#/B", "go://ex.com/p/q#/A", "go://ex.com/p#/T/F", "go://ex.com/p#/L/[]",
         "go://p#/x~1y", "go://p#/é", "go://ex.com/p.q#/C.D", "go://ex.com/p#/A/*", "go://ex.com/p#/a", "go://ex.com/P#/A"]
LOCAL = ["#/components/schemas/L", "#/paths/~1x", "#", "#/a~0b", "#/", "other.yaml", "other.yaml#/x", "./a/b.json#/C", "#/c%25d"]
MISSING = ["go://ex.com/p#/None", "go://ex.com/none#/A", "http://ex.com/s.json#/A", "file:///etc/x#/A", "go://#/A", "ftp://x"]
BAD = ["go://ex.com/p#A", "#A", "go://ex.com/p#/%zz", "go://ex.com/%zz#/A", "://x"]
NAMES = ["A", "B", "a.b", "X-Y_1", "é", "A~B", "a/b", "Long.Name.v1", "schemas", "%", "0"]


def model(ctx, graphs="SomeGraphs", docs="OneDoc", ends=False, what="orders of resolving graphs of three types"):
    ctx.mc("ResolveSteps", {"Graphs": "<- " + graphs, "DocRefs": "<- " + docs, "ExportSets": "<- AllExports"},
           inv=["Final", "Shallow"], props=["Ends"] if ends else [], what=what)


def systematic(ctx, num, graphs="AllGraphs", docs="FewDocs", exports="AllExports"):
    rows = ctx.enum("ResolveEnum", {"Graphs": "<- " + graphs, "DocRefs": "<- " + docs, "ExportSets": "<- " + exports},
                    spec="DumpSpec", what="graphs of three types, written")
    return ctx.rnd.sample(rows, min(num, len(rows)))


class Profile:
    """What random documents are like."""
    odd = .4        # unusual keys
    exports = .3    # share of types exported
    missing = .02   # references to nothing, per case
    bad = .01
    local = .15     # share of local references
    ntypes = (1, 5)
    refs = (0, 2)   # references per type
    docrefs = (1, 5)
    depth = 3
    dup = .02       # duplicate names of components
    exists = .02    # components which exist already
    comps = .4      # documents with components
    n = 1

    def __init__(self, **kw):
        self.__dict__.update(kw)


def ref(r, p, ts):
    if r.random() < p.local:
        return r.choice(LOCAL)
    return r.choice(ts)


def refobj(r, p, ts, sib=True):
    o = {"$ref": gen.t(ref(r, p, ts))}
    if sib and r.random() < .15:
        o[gen.key(r, p.odd).replace("$ref", "d")] = strip(gen.value(r, 1, p.odd))
    return gen.obj(o)


def scatter(r, v, refs, p):
    """Puts reference objects at random places of a document."""
    for x in refs:
        v = put(r, v, x, p)
    return v


def put(r, v, x, p, depth=0):
    isobj, isarr = ("o" in v or "e" in v), "a" in v
    if isarr:
        l = list(v["a"])
        if l and r.random() < .6:
            i = r.randrange(len(l))
            if ("o" in l[i] or "a" in l[i]) and "$ref" not in gen.keys(l[i]):
                l[i] = put(r, l[i], x, p, depth + 1)
                return gen.arr(l)
        l.insert(r.randint(0, len(l)), x)
        return gen.arr(l)
    if isobj:
        o = dict(gen.keys(v))
        ks = [k for k in sorted(o) if ("o" in o[k] or "e" in o[k] or "a" in o[k]) and "$ref" not in gen.keys(o[k])
              and k != "$ref"]
        if ks and r.random() < .6:
            k = r.choice(ks)
            o[k] = put(r, o[k], x, p, depth + 1)
            return gen.obj(o)
        k = gen.key(r, p.odd)
        if k == "$ref":
            k = "$ref" if r.random() < .3 and "$ref" not in o else "k"
        o[k] = x
        return gen.obj(o)
    return x


def strip(v):
    """Drops what looks like a reference."""
    if "o" in v:
        return gen.obj({k: strip(x) for k, x in v["o"].items() if k != "$ref" or not x.get("s", "").startswith("t:")})
    if "a" in v:
        return gen.arr([strip(x) for x in v["a"]])
    return v


def case(r, p):
    ts = r.sample(TYPES, r.randint(*p.ntypes))
    missing, bad = r.random() < p.missing, r.random() < p.bad
    pool = ts + (r.sample(MISSING, 1) if missing else [])

    def body(refs, depth):
        v = strip(gen.doc(r, depth, p.odd))
        rs = [refobj(r, p, pool) for _ in range(r.randint(*refs))]
        if bad and r.random() < .3:
            rs.append(gen.obj({"$ref": gen.t(r.choice(BAD))}))
        if r.random() < .2:
            rs.append(gen.obj({"$ref": r.choice([gen.NULL, gen.num(1), gen.b(True), gen.obj({"type": gen.t("string")})])}))
        return scatter(r, v, rs, p)
    env = [{"ptr": t, "v": body(p.refs, r.choice([0, 1, 1, 2]))} for t in ts]
    for e in env:
        if r.random() < .06:     # a reference is all there is
            e["v"] = refobj(r, p, pool)
    if r.random() < .05:
        env[r.randrange(len(env))].pop("v")
    names = list(NAMES)
    r.shuffle(names)
    exports = [{"name": names.pop(), "ptr": t} for t in ts if r.random() < p.exports]
    if len(exports) > 1 and r.random() < p.dup:
        exports[0]["name"] = exports[1]["name"]
    doc = body(p.docrefs, p.depth)
    o = dict(gen.keys(doc))
    o.pop("components", None)
    if r.random() < p.comps:
        s = {n: strip(gen.doc(r, 1)) for n in r.sample(["L", "M", "zz"], r.randint(0, 3))}
        if exports and r.random() < p.exists:
            s[r.choice(exports)["name"]] = gen.obj({})
        c = {"schemas": gen.obj(s)} if r.random() < .8 else {}
        if r.random() < .3:
            c["responses"] = gen.obj({"R": gen.obj({"description": gen.t("d")})})
        o["components"] = gen.obj(c)
        if s and ts and r.random() < .4:
            k = sorted(s)[0]
            s[k] = refobj(r, p, pool) if r.random() < .5 else gen.obj({"properties": gen.obj({"x": refobj(r, p, pool)})})
            if "schemas" in c:
                c["schemas"] = gen.obj(s)
                o["components"] = gen.obj(c)
    if "$ref" in o and "s" in o["$ref"]:
        o.pop("$ref")
    return {"m": "resolve", "doc": gen.obj(o), "env": env, "exports": exports, "n": p.n}


def chain(r, p, lens=(8, 40), hosts=None):
    """Many types, each of which refers to the next and the last back to one of them or to nothing more."""
    n = r.randint(*lens)
    ts = ["go://%s#/%s%d" % (hosts[i % len(hosts)] if hosts else "ex.com/p", r.choice(["T", "T", "T/F", "é"]), i) for i in range(n)]
    wrap = ["properties", "items", "allOf", "x", "example", "default"]

    def to(i):
        v = gen.obj({"$ref": gen.t(ts[i])})
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            v = gen.obj({r.choice(wrap): v}) if r.random() < .7 else gen.arr([v])
        return v

    def body(*js):
        o = {"title": gen.t(r.choice(["x", "y"]))}
        for k, j in zip("abc", js):
            o[k] = to(j)
        return gen.obj(o) if r.random() < .8 or len(js) != 1 else to(js[0])
    env = [{"ptr": t, "v": body(*([i + 1] + ([r.choice([i, max(0, i - r.randint(1, 12))])] if r.random() < .15 else [])))}
           for i, t in enumerate(ts[:-1])]
    end = r.random()
    env.append({"ptr": ts[-1], "v": body(*([] if end < .3 else [0] if end < .6 else [r.randrange(n)]))})
    if r.random() < p.missing:
        env[-1].pop("v")
    ex = r.choice([0, 0, .05, .2, .9]) if p.exports else 0
    exports = [{"name": "E%d" % i, "ptr": t} for i, t in enumerate(ts) if r.random() < ex]
    r.shuffle(env)
    doc = gen.obj({"a": to(0), "b": to(r.randrange(n))} if r.random() < .5 else {"paths": to(0)})
    return {"m": "resolve", "doc": doc, "env": env, "exports": exports, "n": p.n}


def wide(r, p, num=(13, 40)):
    """Many references to many types side by side."""
    n = r.randint(*num)
    ts = ["go://ex.com/%s#/T%d" % (r.choice(["p", "p", "q"]), i) for i in range(n)]
    env = [{"ptr": t, "v": gen.obj({"$ref": gen.t(r.choice(ts[i + 1:]))}) if r.random() < .1 and i + 1 < n else
            gen.obj({"title": gen.t("t%d" % i)})} for i, t in enumerate(ts)]
    exports = [{"name": "E%d" % i, "ptr": t} for i, t in enumerate(ts) if r.random() < r.choice([0, .3, 1])] if p.exports else []
    refs = [gen.obj({"$ref": gen.t(t)}) for t in r.sample(ts, n)]
    doc = gen.arr(refs) if r.random() < .4 else gen.obj({"k%d" % i: x for i, x in enumerate(refs)})
    if r.random() < p.missing:
        env[r.randrange(n)].pop("v")
    return {"m": "resolve", "doc": gen.obj({"x": doc}), "env": env, "exports": exports, "n": p.n}


def judge(ctx, cases, what):
    ctx.judge("ResolveTrace", "ResolveAccepts", cases, what=what)

"""C16: options of tags."""
import e2e
import gotypes as g
from props.c14 import case

INTS = ["minlen", "maxlen", "minitems", "maxitems", "minprops", "maxprops"]
NUMS = ["min", "max", "emin", "emax", "mulof"]
BOOLS = ["omitempty", "readonly", "writeonly", "deprecated", "required", "unique", "inline", "nullable"]
TEXTS = ["pattern", "format", "type"]


def value(r, k, bad):
    if k in INTS:
        return r.choice(["x", "1x", "--1", "1.5", "1e2", "one", "0x10", "0b1", "1_000", "+", "-", "9223372036854775808", "-9223372036854775809",
                         "99999999999999999999", "0o7", "1."] if bad else
                        ["0", "1", "7", "-3", "255", "65536", "010", "007", "+5", "0012", "-010", "00", "-0", "089", "4294967296", "900719925474099"])
    if k in NUMS:
        return r.choice(["x", "1x", "--1", "1.2.3", "1_0x", "e5", "1e", "1e+", ".", "+", "-.", "1e1.5", "1e400", "1e5e5"] if bad else
                        ["0", "1", "-1", "2.5", "0.001", "1000000", "-0.5", "010", "+1.5", ".5", "5.", "1e3", "1E+2", "-2e-1", "00.50",
                         "2.500", "-0.0", "0e9", "089", "12.5e1", "100e-2", "4294967296"])
    if k in BOOLS:
        return r.choice(["yes", "no", "tRUE", "2", "x"] if bad else ["", "", "true", "false", "1", "0", "t", "F", "TRUE", "False"])
    if k == "pattern":
        return r.choice(["^[a-z]+$", "a|b", "[0-9]{1}", "x y", "\\d", "é", "a{1,2}", "(a,b)", "^(\\w+,)*\\.$", ",", "\\\\", "a:b", "([,)]", "%s"])
    if k == "format":
        return r.choice(["date-time", "email", "int64", "x"])
    return r.choice(["integer", "float", "double", "base64", "uuid", "password", "number", "object"] + g.BASICS)


def options(r, n, bad):
    ks = r.sample(INTS + NUMS + BOOLS + TEXTS, n)
    o = [{"k": k, "v": value(r, k, r.random() < bad)} for k in ks]
    for x in o:
        if r.random() < .05:
            x["k"] = r.choice(["unknown", "Min", "minLength", "require"])
    return o


def tagcase(r):
    bad = r.choice([0, 0, .15])
    jo = []
    if r.random() < .4:
        jo = [{"k": k, "v": value(r, k, r.random() < bad) if r.random() < .3 else ""}
              for k in r.sample(["omitempty", "inline", "string"], r.randint(1, 2))]
    f = g.field("F", g.basic("int"), False, r.choice([None, "", "a", "-", "b"]), jo,
                r.choice([None, "", "", "c", "-", "d.e"]), options(r, r.randint(0, 6), bad),
                r.choice(["", "", 'yaml:"x,min:3"', 'xml:"y"']))
    return {"m": "tag", "f": f, "raw": f["tag"]}


def many(r, bad):
    """One struct with fields of all kinds and many options."""
    n = r.randint(1, 8)
    S = g.named("ex.com/a", "S")
    ts = [g.basic(b) for b in g.BASICS] + [S, g.ptr(S), g.ptr(g.basic("int")), g.slc(g.basic("string")), g.slc(S),
                                           g.mp(g.basic("uint")), g.arr(g.basic("bool"), 2), g.arr(g.basic("int"), 0),
                                           g.slc(g.slc(g.basic("float32"))), g.mp(g.slc(g.basic("string"))),
                                           g.named("ex.com/a", "Str"), g.named("ex.com/a", "L"), g.ptr(g.ptr(S)), g.TIME]
    fs = [g.field("F%d" % i, r.choice(ts), False, None, (), "", options(r, r.randint(0, 5), bad)) for i in range(n)]
    d = {"time": {"Time": g.struct([g.field("wall", g.basic("uint64")), g.field("ext", g.basic("int64"))]),
                  "Duration": g.basic("int64")},
         "ex.com/a": {"S": g.struct([]), "Str": g.basic("string"), "L": g.slc(g.basic("int64")), "T": g.struct(fs)}}
    return case(d, [("ex.com/a", ["T"])] + [("ex.com/a", ["T", f["n"]]) for f in fs if f["t"] != g.TIME])


def check(ctx):
    r = ctx.rnd
    ctx.mc("TagsEnum", inv=["Own", "Wrong"], what="every one or two options on every kind of field")
    flds = ctx.enum("TagsEnum", spec="DumpSpec", what="the same, written")
    # fields whose tags are fine share a struct, so that options of one may show in another
    r.shuffle(flds)
    one, cases = [], []
    bad = lambda o: o["v"] in ("yes", "x", "1.2.3", "text", "0x10", "1e") or (o["v"] in ("", "1.5", "-1.5") and o["k"] in INTS) or \
        (o["v"] == "" and o["k"] in NUMS)
    base = {"S": g.struct([]), "Str": g.basic("string")}

    def put(fs):
        fs = [g.field("F%d" % i, f["t"], False, None, (), "", f["oo"]) for i, f in enumerate(fs)]
        cases.append(case({"ex.com/a": dict(base, T=g.struct(fs))}, [("ex.com/a", ["T"])]))
    flds = [f for f in flds if len(f["oo"]) == 1 or f["oo"][0]["k"] != f["oo"][1]["k"]]
    for f in flds:
        leaf = f["t"]["b"] if f["t"]["k"] == "basic" else ""
        if any(bad(o) or o["k"] in ("type", "inline") for o in f["oo"]):
            if len(f["oo"]) == 1 or ctx.thorough or r.random() < .15:
                put([f])
            continue
        one.append(f)
        if len(one) == 6:
            put(one)
            one = []
    if one:
        put(one)
    cases += [many(r, r.choice([0, 0, 0, .05])) for _ in range(ctx.n(1500, 15000))]
    ctx.judge("TypesTrace", "TypesAccept", cases, what="fields with options")
    ctx.judge("TypesTrace", "TypesAccept", [tagcase(r) for _ in range(ctx.n(6000, 60000))], what="tags")
    e2e.some(ctx, 110, refs=(2, 5), missing=0, local=0, root=0, ops=0, overrides=0, exports=.2, docs=False, paths=.2, extends=0,
             types=dict(bad=0, tags=.9, ntypes=(2, 4), structs=.9, rich=True, badtags=.02))

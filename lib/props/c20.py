"""C20: the formats of the output."""
import itertools
import e2e
import gen
import render
from props import res

FORMATS = ["json", "json:pretty", "yaml", "yml", "go"]
FIRST = ["info", "components", "paths"]
OTHER = ["a", "x", "z~"]
# strings which look like something else, or need to be escaped, in one format or another
STRINGS = ["yes", "no", "on", "off", "y", "n", "Y", "N", "true", "True", "TRUE", "false", "null", "Null", "~", "<<", "=", "0x1f", "0o7", "017",
           "0b1", "1e3", "1_000", "+1", "-1", "1.", ".5", ".inf", "-.INF", ".nan", "1:30", "190:20:30", "2001-01-01", "2001-12-14t21:59:43.10-05:00",
           "2001-12-14 21:59:43.10 -5", "", " ", "  x", "x  ", "\n", "\n\n", "a\n", "a\nb", "a\n\nb\n\n", "\na", " a\n b\n", "a\n  b\nc", "\t", "\tx", "x\t",
           "a\tb\n", "a\r\nb", "\r", "\x00", "\x01", "\x07", "\x1b[0m", "\x7f", "\u0080", "\u0085", "\u00a0", "\u00ad", "\u2028", "\u2029", "a\u2028b",
           "\ufeff", "x\ufeffy", "\ufffd", "\ufffe", "\uffff", "\ue000", "😀", "\U0010ffff", "é", "e\u0301", "日本語", "\u202e", "`", "``", "a`b", "\"`\"",
           "\" + \"`\" + \"", "\\", "\\n", "\\u0041", "\\`", "'", "''", "\"", "\"\"", "%s", "%", "%%", "${x}", "$1", "{{.X}}", "{{", "<b>&", "</script>",
           "#", "# x", "x # y", "x #", "a: b", ":", ": ", "a:", "- a", "-", "--", "---", "--- x", "...", "?", "? a", "!", "!!str x", "!x", "&a", "*a", "|", "|-\n x",
           ">", ">\n x", "@x", "%YAML 1.1", "[", "]", "[]", "{", "}", "{}", "{a: b}", ",", "a, b", "\"x\": 1", "//", "/* */", "*/", "package p", "const", "x" * 79,
           "word " * 40, "w" * 300, "word " * 30 + "\nend", "a b\u00a0c " * 20, "a.b", "a/b", "~0", "~1", "0", "1", "01", "1.0", "1e+21", "NaN", "Infinity",
           "undefined", "nil", "None", "0.1", "9007199254740993", "12345678901234567890", "1\n", " 1", "true ", "-0", "t:x", "n:1", "b:true", "z"]
NUMBERS = ["0", "1", "-1", "10", "1.5", "-0.25", "123456", "1000000", "9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740993",
           "9223372036854775807", "-9223372036854775808", "18446744073709551615", "1e+21", "1e-07", "1.5e+300", "5e-324", "0.1", "1.1", "3.14159265358979",
           "100", "1234567890123", "0.30000000000000004", "-1e-10"]


def string(r):
    x = r.random()
    if x < .75:
        return r.choice(STRINGS)
    if x < .9:
        return r.choice(STRINGS) + r.choice(["", " ", "\n", ".", "`"]) + r.choice(STRINGS)
    return "".join(chr(r.choice([r.randrange(32), r.randrange(32, 127), r.randrange(127, 256), r.randrange(0x2000, 0x2100),
                                 r.randrange(0xe000, 0x10000), r.randrange(0x10000, 0x110000)])) for _ in range(r.randint(1, 6)))


def value(r, depth):
    x = r.random()
    if depth > 0 and x < .35:
        return gen.obj({key(r): value(r, depth - 1) for _ in range(r.randint(0, 4))})
    if depth > 0 and x < .55:
        return gen.arr([value(r, depth - 1) for _ in range(r.randint(0, 4))])
    if x < .62:
        return gen.NULL
    if x < .68:
        return gen.b(r.random() < .5)
    if x < .78:
        return gen.num(r.choice(NUMBERS))
    return gen.t(string(r))


def key(r):
    k = string(r)
    return k if k not in ("$ref", "<<") else "ref"


def content(r, keys):
    """A document with these keys, or some of them, and odd ones."""
    o = {}
    for k in keys:
        o[k] = value(r, 3)
        if k in FIRST and "o" not in o[k]:
            o[k] = gen.obj({key(r): value(r, 2)})
        if k == "paths":
            o[k] = gen.obj({"/" + key(r): gen.obj({m: gen.obj({key(r): value(r, 1) for _ in range(2)}) for m in r.sample(["get", "put", "x", "$"], 2)})
                            for _ in range(r.randint(0, 2))})
        if k == "components":
            o[k] = gen.obj({"schemas": gen.obj({key(r): gen.obj({key(r): value(r, 1)}) for _ in range(2)})})
        if k == "info":
            o[k] = gen.obj({"title": gen.t(string(r)), "x-" + key(r): value(r, 1)})
    o["openapi"] = gen.t(r.choice(["3.0.0", "3.0.0", string(r)]))
    ks = list(o.items())
    r.shuffle(ks)
    return gen.obj(dict(ks))


def case(r, doc, fmt, how="flag", cfg=None, more=None):
    """A run on one package with this specification, in the format, which a flag, the configuration or nothing states."""
    files = [{"path": "/W/go.mod", "text": "module ex.com/w\n\ngo 1.14\n"}, {"path": "/W/p.go", "text": "package p\n"},
             {"path": "/W/oapi.json", "text": render.jtext(doc, r.choice([None, 2]))}]
    pkgs = [{"path": "ex.com/w", "imports": [], "files": [{"name": "oapi.json", "doc": doc}], "cmts": [], "broken": False}]
    flags, argv, configs, before = {"x": ""}, [], [], []
    if how == "flag":
        flags["format"] = fmt
        argv = ["--format", fmt]
    own = dict(cfg or {})
    if how == "config":
        own["format"] = gen.t(fmt)
    if own:
        flags["config"] = "c.json"
        argv += ["--config=c.json"]
        configs = [{"path": "/W/c.json", "doc": gen.obj(own)}]
        files.append({"path": "/W/c.json", "text": render.jtext(gen.obj(own))})
    if r.random() < .3:
        flags["output"] = "out"
        argv += ["--output=out"]
        before = [{"path": "/W/out", "state": "absent"}]
    return {"m": "cli", "want": "run", "n": 1, "pr": {"pkgs": pkgs, "decls": {}}, "order": [], "flags": flags, "argv": argv, "cwd": "/W",
            "configs": configs, "dirs": [{"path": "/W", "pkg": "ex.com/w"}], "before": before, "files": files}


def shape(k):
    """A small value for a key."""
    if k == "paths":
        return gen.obj({"/a": gen.obj({"get": gen.obj({"x": gen.num(1)})})})
    if k in FIRST:
        return gen.obj({"schemas" if k == "components" else "title": gen.obj({"X": gen.obj({})}) if k == "components" else gen.t("t")})
    return gen.t(k)


def orders(r):
    for n in range(7):
        for ks in itertools.combinations(FIRST + OTHER, n):
            o = [(k, shape(k)) for k in ks] + [("openapi", gen.t("3"))]
            r.shuffle(o)
            for f in FORMATS:
                yield case(r, gen.obj(dict(o)), f)


def check(ctx):
    r = ctx.rnd
    ctx.mc("KeyOrderMC", {"Others": "<- " + ("MoreKeys" if ctx.thorough else "OtherKeys"), "List": "<- FirstKeys"},
           inv=["Total", "SameKeys", "InList", "Unique"], props=["Ends"], what="sorting of all sets of keys")
    cs = list(orders(r))
    e2e.judge(ctx, r.sample(cs, ctx.n(160, len(cs))), "sets of keys in all formats")
    cs = []
    for _ in range(ctx.n(130, 1200)):
        d = content(r, r.sample(FIRST, r.randint(0, 3)) + [key(r) for _ in range(r.randint(0, 4))])
        cs += [case(r, d, f, r.choice(["flag", "flag", "config"])) for f in FORMATS]
    # each string as key and as value, wherever
    q = 8
    for i in range(0, len(STRINGS), q):
        s = [x for x in STRINGS[i:i + q] if x != "<<"] + ["v0"]
        d = gen.obj(dict([(x, gen.num(k)) for k, x in enumerate(s)] + [("openapi", gen.t("3")), ("v", gen.arr([gen.t(x) for x in s])),
                    ("k", gen.obj({x: gen.t(x) for x in s})), ("w", gen.obj({"k%d" % k: gen.t(x) for k, x in enumerate(s)}))]))
        cs += [case(r, d, f) for f in FORMATS]
    for i in range(0, len(NUMBERS), q):
        s = NUMBERS[i:i + q]
        d = gen.obj({"openapi": gen.t("3"), "v": gen.arr([gen.num(x) for x in s]), "k": gen.obj({"k" + x: gen.num(x) for x in s})})
        cs += [case(r, d, f) for f in FORMATS]
    # more than what fits into any buffer
    for n in (5000, 70000, 200000):
        d = gen.obj({"openapi": gen.t("3"), "info": gen.obj({"title": gen.t("w" * n), "x-a": gen.arr([gen.t("word " * (n // 50)), gen.t("`\"<é" * (n // 200))] * 3)}),
                     "x": gen.obj({"k%d" % i: gen.num(i) for i in range(n // 1000)})})
        cs += [case(r, d, f) for f in FORMATS]
    for _ in range(ctx.n(4, 40)):
        d = gen.obj(dict([(k if k != "$ref" else "ref", x) for k, x in gen.keys(res.strip(gen.big(r))).items() if k not in FIRST], openapi=gen.t("3")))
        cs += [case(r, d, f) for f in FORMATS]
    # which yaml reads as something else
    d = gen.obj({"openapi": gen.t("3.0.0"), "x-merge": gen.obj({"<<": gen.t("text")})})
    cs += [dict(case(r, d, f), name="key << in " + f) for f in FORMATS]
    d = gen.obj({"openapi": gen.t("3.0.0"), "x-merge": gen.arr([gen.t("<<"), gen.obj({"k": gen.t("<<")})])})
    cs += [case(r, d, f) for f in FORMATS]
    e2e.judge(ctx, cs, "odd strings in all formats")
    cs = []
    for f in ["xml", "JSON", "Yaml", "yaml ", " json", "json:", "json:Pretty", "pretty", "go:pretty", "yaml:pretty", "jsonpretty", "toml", "golang", "j",
              "jso", "jsonn", "yam", "ym", "g", "goo", "json,yaml", "0", "-", "stdout", "\n", "yaml\n"]:
        cs += [case(r, content(r, ["a"]), f, how) for how in ("flag", "config")]
    cs += [case(r, content(r, FIRST), "", how) for how in ("none", "config", "none", "config")]
    e2e.judge(ctx, cs, "other formats")

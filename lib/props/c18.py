"""C18: text and derivation of pointers."""
import itertools
import e2e
import gen

PKGS = ["ex.com/p", "ex.com/p/q", "p", "ex.com/a-b_c.d/v2", "github.com/user/Repo", "ex.com/a b", "ex.com/p~1"]
TOK = gen.ODD + ["T", "Field", "[]", "*", "a%2Fb", "%7E", "a?b=c", "x y", "+", "a\tb", "~~", "//", "/~", "a\r\n"]


def rtoks(r, n=4):
    return [r.choice(TOK) if r.random() < .8 else "".join(r.choice("~01/%ab") for _ in range(r.randint(0, 5)))
            for _ in range(r.randint(0, n))]


def history(r, n):
    h = ["p", "q", "r", "s"]
    ops = [{"op": r.choice(["new", "new", "go"]), "h": x, "from": x, "pkg": r.choice(PKGS[:4]), "toks": rtoks(r)}
           for x in h]
    for _ in range(n):
        k = r.choice(["desc", "desc", "raw", "raw", "raw", "replace", "replace", "clone", "fragclone", "reparse"])
        o = {"op": k, "h": r.choice(h), "from": r.choice(h)}
        if k == "desc":
            o["path"] = r.choice(["a", "/a", "a/b", "/a/b", "~1", "a~0b", "", "/", "//", "[]", "*", "T"])
        elif k == "raw":
            o["toks"] = rtoks(r, 2)
        elif k == "replace":
            o["n"], o["tok"] = r.choice([-1, 0, 0, 1, 1, 2, 3, 5, 100]), r.choice(TOK)
        ops.append(o)
    return {"m": "ptrhist", "handles": h, "ops": ops}


def check(ctx):
    r = ctx.rnd
    ctx.mc("PointerText", {"Chars": '{"~", "/", "0", "1", "%", "a"}', "TokLen": "2", "FragLen": ctx.n("2", "3")},
           inv=["RoundTrip", "Extends"], what="all short fragments")
    ctx.mc("Fragments", {"Handles": '{"p", "q", "r"}', "Toks": '{"a", "b"}', "MaxLen": "2", "MaxOps": ctx.n("3", "4"),
                         "Capped": "TRUE"}, inv=["Refines"], props=["Isolated"], what="slices as values")
    ctx.mc("PointerHist", {"Handles": '{"p", "q"}', "Toks": '{"a", "~/", ""}', "MaxLen": "3", "MaxOps": ctx.n("3", "4")},
           props=["Isolated"], view="NoHist", what="derivations")
    sims = ctx.behaviours("PointerHist", {"Handles": '{"p", "q", "r"}', "Toks": '{"a", "~/", "%"}', "MaxLen": "5",
                                          "MaxOps": "7"}, ctx.n(60, 300), 9, what="derivations", inv=["Emit"])
    cases = [{"m": "ptrhist", "handles": ["p", "q", "r"], "ops": o} for o in sims]
    cases += [history(r, ctx.n(15, 30)) for _ in range(ctx.n(800, 8000))]
    ctx.judge("PointerTrace", "Accept18", cases, what="histories of derivations")

    alpha = [""] + ["".join(x) for n in (1, 2, ctx.n(2, 3)) for x in itertools.product("~/01%a", repeat=n)]
    alpha = sorted(set(alpha))
    cases = [{"m": "ptr", "scheme": s, "pkg": "ex.com/p" if s else "", "toks": [a]} for a in alpha for s in ("", "go")]
    seqs = [[]] + [[a] for a in alpha] + [list(x) for x in itertools.product([a for a in alpha if len(a) < 2], repeat=2)]
    seqs += [list(x) for x in itertools.product(["", "a", "/", "~1"], repeat=3)]
    for s in ("", "go"):
        cases.append({"m": "ptrtexts", "all": [{"scheme": s, "pkg": k if s else "", "toks": q}
                                               for k in (["ex.com/p", "ex.com/p/a"] if s else [""]) for q in seqs]})
    for _ in range(ctx.n(5000, 50000)):
        s = r.choice(["", "go", "go"])
        cases.append({"m": "ptr", "scheme": s, "pkg": r.choice(PKGS) if s else "", "toks": rtoks(r)})
    for _ in range(ctx.n(200, 2000)):
        s = r.choice(["", "go"])
        q = rtoks(r, 40) if r.random() < .7 else [r.choice(TOK) * r.choice([1, 20, 80]) for _ in range(3)]
        cases.append({"m": "ptr", "scheme": s, "pkg": r.choice(["ex.com/p" + "/q" * r.randint(5, 30), "ex.com/" + "p" * 300]) if s else "", "toks": q})
    for _ in range(ctx.n(3000, 30000)):
        f = "".join(r.choice(["/", "/", "a", "T", "~0", "~1", "~01", "~", "%25", "%2F", "%7E", "%20", "#", ".", "é", "[]",
                              "*", "0", "1"]) for _ in range(r.randint(0, 7)))
        if r.random() < .85:
            f = "/" + f
        if r.random() < .05:
            f += r.choice(["%", "%2", "%zz"])
        cases.append({"m": "ptrparse", "text": r.choice(["go://ex.com/p", "", "go://p", "http://ex.com/x", "a.yaml",
                                                         "go://ex.com/%zz"]) + "#" + f})
    ctx.judge("PointerTrace", "Accept18", cases, what="texts of pointers")
    e2e.some(ctx, 80, refs=(2, 6), missing=.05, local=.4, root=.2, ops=.2, overrides=.4, exports=.5, subptr=.4, types=dict(bad=0))

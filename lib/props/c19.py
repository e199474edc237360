"""C19: dot paths, key extraction and isolation of containers."""
import itertools
import e2e
import gen
from props import hist

MARK = gen.obj({"mark": gen.t("x")})


def occurrences(v, path=()):
    yield path, v
    if "o" in v:
        for k, x in v["o"].items():
            yield from occurrences(x, path + (k,))
    elif "a" in v:
        for i, x in enumerate(v["a"]):
            yield from occurrences(x, path + (str(i),))


def check(ctx):
    r = ctx.rnd
    ctx.mc("DotPath", {"Chars": '{".", "~", "0", "1", "a"}', "KeyLen": "2", "PathLen": ctx.n("2", "3")},
           inv=["RoundTrip", "NoSeparator"], what="all short key sequences")
    cases = []
    # all short key sequences have different paths
    alpha = [""] + ["".join(x) for n in (1, 2) for x in itertools.product(".~01a", repeat=n)]
    if ctx.thorough:
        alpha += ["".join(x) for x in itertools.product(".~01a", repeat=3)]
    seqs = [[a] for a in alpha] + [list(x) for x in itertools.product(alpha, repeat=2)]
    cases.append({"m": "dotpaths", "all": seqs})
    for a in alpha:
        cases.append({"m": "dotpath", "d": gen.obj({a: gen.t("v"), "other": gen.num(1)}), "keys": [a], "mark": MARK})
        for k in r.sample(alpha, 12):
            d = gen.obj({a: gen.obj({k: gen.t("v"), "z": gen.arr([gen.num(1)])}), k + "." + a: gen.num(2)})
            cases.append({"m": "dotpath", "d": d, "keys": [a, k], "mark": MARK})
    for _ in range(ctx.n(2500, 25000)):
        d = gen.doc(r, r.choice([2, 3, 4, 6]), odd=.6, width=4, arrs=.35)
        occ = [p for p, _ in occurrences(d) if p]
        for p in r.sample(occ, min(2, len(occ))):
            cases.append({"m": "dotpath", "d": d, "keys": list(p), "mark": r.choice([MARK, gen.NULL, gen.arr([])])})
        p = hist.pick_path(r, d)
        cases.append({"m": "dotpath", "d": d, "keys": p, "mark": MARK})
    for _ in range(ctx.n(200, 2000)):
        d = gen.big(r, odd=.5)
        occ = sorted((p for p, _ in occurrences(d) if p), key=len)
        for p in occ[-1:] + r.sample(occ, min(2, len(occ))):
            cases.append({"m": "dotpath", "d": d, "keys": list(p) + [gen.key(r)] * (r.random() < .2), "mark": r.choice([MARK, gen.NULL])})
        n = r.randint(8, 30)
        cases.append({"m": "dotpath", "d": gen.obj({}), "keys": [r.choice(["a", "b.c", "~", "x~0"]) for _ in range(n)], "mark": MARK})
    ctx.judge("DotPathTrace", "Accept19", cases, what="reading and setting by path")
    cases = []
    for _ in range(ctx.n(2000, 20000)):
        k = r.choice(["$ref", "$ref", "$ref", "x", "a.b", "~", "", "é"])
        d = plant(r, gen.value(r, r.choice([2, 3, 4, 6]), odd=.6, arrs=.4, objs=.6) if r.random() < .95 else gen.big(r), k)
        if "s" in d:
            d = gen.arr([d])
        cases.append({"m": "extract", "d": d, "key": k, "mark": gen.t("MARK")})
    ctx.judge("DotPathTrace", "Accept19", cases, what="extraction of keys")
    hist.check(ctx, ["make", "makefrom", "makedata", "clone", "clone", "replace", "set", "set", "setfrom", "setfrom",
                     "setdata", "get"])
    e2e.some(ctx, 90, refs=(2, 6), missing=0, types=dict(bad=0), odd=.9, root=.2, ops=.4, overrides=0, exports=.3)


def plant(r, v, k):
    """Adds occurrences of key k, with values of any kind."""
    if "a" in v:
        return gen.arr([plant(r, x, k) for x in v["a"]])
    if "o" in v or "e" in v:
        o = {j: plant(r, x, k) for j, x in gen.keys(v).items()}
        if r.random() < .5:
            o[k] = gen.scalar(r) if r.random() < .6 else plant(r, gen.value(r, 2), k)
        return gen.obj(o)
    return v

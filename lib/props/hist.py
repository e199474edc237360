"""Histories of operations on containers, shared by C09 and C19."""
import gen

H = ["p", "q", "r"]


def simulated(ctx, num):
    ops = ctx.behaviours("ContainersEnum", {"Handles": '{"p", "q"}', "InitValues": "<- SmallValues",
                                            "SetPaths": "<- SmallPaths", "MaxOps": "6"}, 20, 8,
                         what="histories of two containers", inv=["Emit", "Documents"])
    ops = ctx.rnd.sample(ops, min(num, len(ops)))
    return [{"m": "hist", "handles": ["p", "q"], "ops": o} for o in ops]


def pick_path(r, v, n=3):
    p = []
    for _ in range(r.randint(1, n)):
        if v is not None and gen.keys(v) and r.random() < .8:
            k = r.choice(sorted(gen.keys(v)))
            v = gen.keys(v)[k]
        elif v is not None and "a" in v:
            if not v["a"]:
                break
            i = r.randrange(len(v["a"]))
            k, v = str(i), v["a"][i]
        else:
            k, v = gen.key(r), None
            if k in ("-", "*", "01", "0", "1"):
                k = "k"
        p.append(k)
    return p or ["k"]


def random_history(r, n, ops=None):
    o = []
    guess = {h: gen.obj({}) for h in H}
    exact = {h: True for h in H}
    for h in H:
        v = gen.doc(r, 3)
        guess[h] = v
        o.append({"op": "make", "h": h, "v": v})
    for _ in range(n):
        h, f = r.choice(H), r.choice(H)
        k = r.choice(ops or ["make", "makefrom", "makedata", "clone", "replace", "set", "set", "set", "setfrom",
                             "setdata", "setfrom", "merge", "merge", "merge", "mergeall", "get", "get"])
        p = pick_path(r, guess[h])
        if not exact[h]:         # which of these means what in an array is the container's choice
            p = ["k" if x in ("-", "*", "01") else x for x in p]
        if k == "make":
            v = gen.doc(r, 2)
            guess[h], exact[h] = v, True
            o.append({"op": k, "h": h, "v": v})
        elif k in ("makefrom", "makedata", "clone", "replace"):
            guess[h], exact[h] = guess[f], exact[f]
            o.append({"op": k, "h": h, "from": f})
        elif k == "get":
            o.append({"op": k, "h": h, "p": p})
        elif k == "set":
            o.append({"op": k, "h": h, "p": p, "v": gen.value(r, 2)})
        elif k in ("setfrom", "setdata"):
            o.append({"op": k, "h": h, "p": p, "from": f})
        elif k == "merge":
            o.append({"op": k, "h": h, "from": f, "pol": r.choice(["default", "default", "override", "strict"])})
        elif k == "mergeall":
            o.append({"op": k, "h": h, "all": [r.choice(H) for _ in range(r.randint(0, 3))],
                      "pol": r.choice(["default", "override", "strict"])})
        if k in ("set", "setfrom", "setdata", "merge", "mergeall"):
            exact[h] = False
    return {"m": "hist", "handles": H, "ops": o}


def model(ctx):
    ctx.mc("Containers", {"Handles": '{"p", "q"}', "InitValues": "<- SmallValues", "SetPaths": "<- SmallPaths",
                          "MaxOps": ctx.n("3", "4")}, inv=["Documents"], props=["Isolated"], view="View",
           what="operations on two documents")


def check(ctx, ops=None):
    model(ctx)
    cases = simulated(ctx, ctx.n(400, 4000))
    cases += [random_history(ctx.rnd, ctx.n(12, 25), ops) for _ in range(ctx.n(500, 5000))]
    ctx.judge("ContainersTrace", "ContainersAccepts", cases, what="histories of containers")

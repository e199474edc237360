"""C13: route matching in histories and at the same time."""
import routes


def call(r, pats):
    p = r.choice(pats)
    return {"pat": p, "method": r.choice(["", "get", "POST", routes.method(r)]), "path": routes.instance(r, r.choice(pats))}


def variants(r, p, n):
    """Patterns close to each other, which share parts of their text."""
    v = [p, p + "/", p.upper(), "get:" + p, "post:" + p, "GET:" + p, p.replace("{id}", "*"), p.replace("*", "{id}"),
         p.replace("{id}", "{ab}"), p + "*", p.replace("/", "."), p.replace("{id}", "{Id}"), p + "x%d" % n, "BAD"]
    return [x for x in v if x != ""]


def check(ctx):
    r = ctx.rnd
    consts = {"Threads": '{"t1", "t2"}', "Patterns": '{"/a", "/{id}", "BAD"}', "Routes": '{"/a", "/b"}', "Calls": "2",
              "Unlocked": "FALSE", "Record": "FALSE"}
    ctx.mc("RouteCache", consts, inv=["Correct", "Exclusive", "CacheRight"], props=["AllReturn"],
           what="two threads, two calls each")
    if ctx.thorough:
        ctx.mc("RouteCache", dict(consts, Threads='{"t1", "t2", "t3"}', Routes='{"/a"}'),
               inv=["Correct", "Exclusive", "CacheRight"], what="three threads")
    sims = ctx.behaviours("RouteCache", dict(consts, Threads='{"t1", "t2", "t3"}', Patterns='{"/a", "/{id}", "/*", "get:/a", "BAD"}',
                                             Routes='{"/a", "/b", "/a/b"}', Calls="3", Record="TRUE"), ctx.n(300, 2000), 80,
                          what="interleavings", inv=["Emit"])
    cases = [{"m": "routes", "threads": [h]} for h in sims]
    for i in range(ctx.n(1200, 12000)):
        pats = variants(r, routes.pattern(r), i)
        if r.random() < .5:
            pats += [routes.pattern(r)]
        cases.append({"m": "routes", "threads": [[call(r, pats) for _ in range(r.randint(2, 25))]]})
    ctx.judge("RouteTrace", "RouteAccepts", cases, what="histories", deadline=10)
    cases = []
    for i in range(ctx.n(500, 4000)):
        base = routes.pattern(r, plain=True) + "/n%d" % i
        pats = variants(r, base, i)
        pats += [base + "/%d" % k for k in range(r.choice([0, 2, 10, 40]))]
        cases.append({"m": "routes", "threads": [[call(r, pats) for _ in range(r.choice([5, 20, 40]))]
                                                 for _ in range(r.choice([2, 3, 8, 16]))]})
    ctx.judge("RouteTrace", "RouteAccepts", cases, what="concurrent calls, race detector", race=True, jobs=4, deadline=20)

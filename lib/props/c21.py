"""C21: scanning of packages."""
import e2e
import itertools

STD = ["fmt", "net/http", "time", "os", "go/types", "unicode/utf8"]
LIKE = ["ex.com/fmt", "fmtx", "net/httpx", "ex.com/net/http", "fmt/sub", "time2", "github.com/pkg/errors", "main",
        "ex.com/a", "ex.com/a/b", "ex.com/a.b", "z", "a", "command-line-arguments", "ex.com/internal/x", "gopkg.in/yaml.v2"]


def graph(r, n, edges=None, std=(), fail=(), load=(), roots=None):
    """edges: (i, j) i imports j, j < i"""
    names = r.sample(LIKE, n)
    stds = r.sample(STD, len(std))
    path = {i: (stds[list(std).index(i)] if i in std else names[i]) for i in range(n)}
    nodes = []
    for i in range(n):
        nodes.append({"id": "id%d" % i, "path": path[i], "std": i in std,
                      "imports": ["id%d" % j for a, j in edges if a == i],
                      "errs": ["<load %d.%d>" % (i, k) for k in range(load.count(i))] if i in load else [],
                      "fail": "<scan %d>" % i if i in fail else ""})
    r.shuffle(nodes)
    return {"m": "pkgscan", "nodes": nodes, "roots": ["id%d" % i for i in roots]}


def check(ctx):
    r = ctx.rnd
    ctx.mc("PkgScanSteps", {"N": "3"}, inv=["Right", "Sofar"], props=["Ends"], what="all graphs of three packages")
    if ctx.thorough:
        ctx.mc("PkgScanSteps", {"N": "4"}, inv=["Right", "Sofar"], what="all graphs of four packages", timeout=850)
    cases = []
    n = 4
    pairs = [(i, j) for i in range(n) for j in range(i)]
    for bits in range(1 << len(pairs)):
        e = [p for k, p in enumerate(pairs) if bits >> k & 1]
        for _ in range(ctx.n(20, 120)):
            std = [i for i in range(n) if r.random() < .2]
            for s in list(std):        # a standard package imports standard ones
                if any(a == s and j not in std for a, j in e):
                    std.remove(s)
            std = [s for s in std if all(j in std for a, j in e if a == s)]
            non = [i for i in range(n) if i not in std]
            fail = [i for i in non if r.random() < .3]
            load = [i for i in non for _ in range(2) if r.random() < .15]
            roots = [i for i in range(n) if r.random() < .4] or [n - 1]
            if r.random() < .2:
                roots += [r.choice(roots)]
            r.shuffle(roots)
            cases.append(graph(r, n, e, std, fail, load, roots))
    for _ in range(ctx.n(1500, 15000)):
        n = r.randint(2, 12) if r.random() < .97 else len(LIKE)
        d = r.choice([.2, .4, .7])
        e = [(i, j) for i in range(n) for j in range(i) if r.random() < d]
        std = [i for i in range(min(n, 4)) if r.random() < .3]
        std = [s for s in std if all(j in std for a, j in e if a == s)]
        std = [s for s in std if all(j in std for a, j in e if a == s)]
        while any(j not in std for a, j in e if a in std):
            std = [s for s in std if all(j in std for a, j in e if a == s)]
        p = r.choice([0, .1, .5, 1])
        fail = [i for i in range(n) if i not in std and r.random() < p]
        load = [i for i in range(n) for _ in range(2) if i not in std and r.random() < p / 2]
        roots = r.sample(range(n), r.randint(1, min(3, n)))
        cases.append(graph(r, n, e, std, fail, load, roots))
    ctx.judge("PkgScanTrace", "ScanAccepts", cases, what="graphs of packages")
    e2e.some(ctx, 90, npkgs=(3, 6), specs=(1, 1), refs=(1, 2), missing=0, types=dict(bad=0, ntypes=(1, 2)), broken=.04, bad=.1, badexports=.04,
             exports=.2, root=.1, ops=0, overrides=0)

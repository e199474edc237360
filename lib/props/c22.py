"""C22: export comments."""
import e2e

GOOD = ["//openapi:schema", "//openapi:schema", "//openapi:schema", "//openapi:schema", "//openapi:schema"]
OTHER = ["// openapi:schema A", "//oapi:schema A", "// a comment", "//", "//open api", "//Openapi:schema A", "///openapi:schema A",
         "//go:generate x", "// see //openapi:schema A", "//\topenapi:schema A", "//OPENAPI:schema X Y", "//opena", "//pi:schema A"]
PLAIN = ["//openapi", "//openapi:root", "//openapi title", "//openapi:root a b", "//openapi ", "//openapi:schema X"]
BAD = ["//openapi:scheme A", "//openapi:", "//openapi:schemaX A", "//openapi:schema", "//openapi:schema  A", "//openapi:schema A  B",
       "//openapi:schema A B C", "//openapi-x", "//openapi:schema go://%zz#/A", "//openapi:schema X go://ex.com/p#A",
       "//openapi:schema A ://x", "//openapiroot", "//openapi:Schema A", "//openapi:schemas A B", "//openapi3 A", "//openapi:SCHEMA A",
       "//openapi:schema X ex.com/p#A", "//openapi:schema :// A B"]
PTRS = ["A", "B", "T", "T/F", "A/B/C", "T/[]", "T/*", "T/A~1b", "é", "go://ex.com/p#/T", "go://ex.com/q#/T", "go://ex.com/r/s#/T/F",
        "#/T", "go://ex.com/p#/A", "T2", "T3", "T4", "t", "Go", "go://x", "go://#/T", "x.T", "http://ex.com/s#/T", "go://ex.com/p#/T/a%2Fb",
        "openapi", "a:b", "T%20x"]
NAMES = ["N1", "N2", "A", "T", "B", "a.b", "x-y", "N_3", "schema", "é", ":schema", "N/1", "~", "N%"]


def comment(r):
    x = r.random()
    if x < .62:
        a = [r.choice(PTRS)] if r.random() < .5 else [r.choice(NAMES), r.choice(PTRS)]
        s = r.choice(GOOD) + " " + " ".join(a)
        return s + r.choice(["", "", "", " ", "   "])
    if x < .82:
        return r.choice(OTHER)
    if x < .92:
        return r.choice(PLAIN[:5])
    return r.choice(BAD) if r.random() < .4 else r.choice(OTHER)


class File:
    """A source file with comments in any place a comment can be in."""

    def __init__(self, r, pkg, k):
        self.r, self.pkg, self.k, self.comments = r, pkg, k, []

    def c(self, more=.5):
        """Some comment lines."""
        s = ""
        while self.r.random() < more and self.budget > 0:
            self.budget -= 1
            t = self.take()
            self.comments.append({"pkg": self.pkg, "text": t})
            s += t + "\n"
            if self.r.random() < .3:
                s += "\n"
        return s

    def tail(self):
        if self.r.random() < .3 and self.budget > 0:
            self.budget -= 1
            t = self.take()
            self.comments.append({"pkg": self.pkg, "text": t})
            return " " + t + "\n"
        return "\n"

    def block(self):
        r = self.r
        if r.random() < .12:
            t = r.choice(["/*openapi:schema Blk*/", "/*\nopenapi:schema Blk\n*/", "/* //openapi:schema Blk */", "/*openapi:bad*/"])
            self.comments.append({"pkg": self.pkg, "text": t})
            return t + "\n"
        return ""

    def source(self, texts):
        r, k = self.r, self.k
        self.queue, self.budget = list(texts), len(texts)
        self.take = lambda: self.queue.pop(0)
        s = self.c() + r.choice(["\n", ""])
        s += "package p" + self.tail() + self.block() + self.c()
        parts = [
            lambda: "func f%d() {\n%s\tx := 1%s\tif x > 0 {\n%s\t}\n%s\t_ = x\n}%s" % (
                k, self.c(), self.tail(), self.c(), self.c(), self.tail()),
            lambda: "type s%d struct {\n%s\tA string `json:\"a\"`%s\n%s\tB int\n%s}\n" % (
                k, self.c(), self.tail(), self.c(), self.c()),
            lambda: "const c%d = \"//openapi:schema Str\"%s" % (k, self.tail()),
            lambda: "var v%d = `\n//openapi:schema Raw\n//openapi:bad`%s" % (k, self.tail()),
            lambda: "type (\n%s\ti%d interface {\n%s\t\tM()%s\t}\n%s)\n" % (self.c(), k, self.c(), self.tail(), self.c()),
            lambda: "func init() {%s%s}\n" % (self.tail(), self.c()),
        ]
        r.shuffle(parts)
        for p in parts[:r.randint(1, len(parts))]:
            s += self.c() + self.block() + p() + "\n"
        while self.queue:
            s += self.c(1)
        return s.rstrip("\n") if r.random() < .3 else s


def case(r, comments):
    """comments: list of lists of lists: packages, files, comments"""
    pkgs, all_ = [], []
    for i, files in enumerate(comments):
        path = ["ex.com/p", "ex.com/q", "ex.com/r/s", "main", "github.com/a/b.go"][i]
        src = []
        for k, texts in enumerate(files):
            f = File(r, path, k)
            src.append(f.source(texts))
            all_ += f.comments
        pkgs.append({"path": path, "src": src})
    return {"m": "cmds", "pkgs": pkgs, "comments": all_}


def clean(r, n):
    """n comments which do not clash or fail."""
    out, names, ptrs = [], set(), set()
    while len(out) < n:
        c = comment(r)
        w = c.strip().split(" ")
        if w[0] == "//openapi:schema" and len(w) in (2, 3) and c not in BAD:
            p = w[-1]
            nm = w[1] if len(w) == 3 else p.split("#")[-1].split("/")[-1]
            if nm in names or p in ptrs or "/" + p in {"/" + x.split("#")[-1].lstrip("/") for x in ptrs}:
                continue
            names.add(nm)
            ptrs.add(p)
        elif c in BAD:
            continue
        out.append(c)
    return out


def check(ctx):
    r = ctx.rnd
    consts = {"Starts": '{"//openapi:schema", "//openapi", "//openapi:x", "// openapi:schema", "//openapi:schema "}',
              "Args": '{"A", "T/F", "", "go://ex.com/r#/T", "#/T", "go://ex.com/p#T", "T~1x"}', "MaxArgs": ctx.n("3", "4")}
    ctx.mc("CmdsEnum", consts, inv=["Sane"], what="all comments of a few words")
    cases = []
    # every short comment on its own
    words = ["A", "T/F", "", "go://ex.com/r#/T", "#/T", "go://ex.com/p#T", "T~1x"]
    for st in ["//openapi:schema", "//openapi", "//openapi:x", "// openapi:schema", "//openapi:schema "]:
        for a in [[]] + [[x] for x in words] + [[x, y] for x in words for y in words] + [[x, "B", y] for x in words for y in words]:
            cases.append(case(r, [[[" ".join([st] + a)]]]))
    for c in OTHER + PLAIN + BAD:
        cases.append(case(r, [[[c]]]))
    for _ in range(ctx.n(2500, 25000)):
        shape = [[r.randint(0, 4) for _ in range(r.randint(1, 3))] for _ in range(r.randint(1, 4))]
        n = sum(sum(x) for x in shape)
        cs = clean(r, n) if r.random() < .75 else [comment(r) for _ in range(n)]
        it = iter(cs)
        cases.append(case(r, [[[next(it) for _ in range(k)] for k in fs] for fs in shape]))
    ctx.judge("CmdsTrace", "CmdsAccepts", cases, what="comments in source files")
    e2e.some(ctx, 110, npkgs=(2, 4), refs=(2, 5), missing=.02, types=dict(bad=0), exports=.9, badexports=.06, root=0, ops=0, overrides=.1)

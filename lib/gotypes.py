"""Random Go programs in the form of spec/Types.tla, and their source."""
import copy

BASICS = ["int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64",
          "bool", "string"]
OTHERS = ["func()", "func(int) string", "interface{}", "interface{ M() }", "chan int", "complex64", "complex128", "uintptr",
          "error", "map[string]func()", "[]chan int", "any", "*interface{}", "[]complex128"]
TIME = {"k": "named", "p": "time", "n": "Time"}
TIMESRC = "package time\n\ntype Time struct {\n\twall uint64\n\text int64\n}\n\ntype Duration int64\n"


def basic(b):
    return {"k": "basic", "b": b}


def named(p, n):
    return {"k": "named", "p": p, "n": n}


def ptr(t):
    return {"k": "ptr", "t": t}


def slc(t):
    return {"k": "slice", "t": t}


def arr(t, n):
    return {"k": "array", "t": t, "len": n}


def mp(t, key="string"):
    return {"k": "map", "t": t, "key": key}


def other(src):
    """Types without schema; those made of them are spelled out."""
    if src.startswith("map[string]"):
        return mp(other(src[11:]))
    if src.startswith("[]"):
        return slc(other(src[2:]))
    if src.startswith("*"):
        return ptr(other(src[1:]))
    if src in ("complex64", "complex128", "uintptr"):
        return basic(src)
    return {"k": "other", "src": {"any": "interface{}", "error": "error"}.get(src, src)}


def written(v):
    """A value of an option in a tag: commas and backslashes are escaped."""
    return v.replace("\\", "\\\\").replace(",", "\\,").replace("\\", "\\\\")


def field(n, t, emb=False, jn=None, jo=(), on=None, oo=(), extra=""):
    """jn/on None: no such tag."""
    tag = ""
    if jn is not None or jo:
        tag += 'json:"%s"' % ",".join([jn or ""] + [o["k"] + (":" + o["v"] if o["v"] != "" else "") for o in jo])
    if on is not None or oo:
        tag += (" " if tag else "") + 'oapi:"%s"' % ",".join(
            [on or ""] + [o["k"] + (":" + written(o["v"]) if o["v"] != "" or o.get("c") else "") for o in oo])
    if extra:
        tag += (" " if tag else "") + extra
    return {"n": n, "t": t, "emb": emb, "x": n[0].isupper() or n[0] in "ÉÄ", "tag": tag, "jn": jn or "", "jo": kv(jo),
            "on": on or "", "oo": kv(oo)}


def kv(o):
    return [{"k": x["k"], "v": x["v"]} for x in o]


def struct(fields):
    return {"k": "struct", "f": fields}


def used(t, acc):
    """Packages a type mentions."""
    k = t["k"]
    if "as" in t:       # by the name of an alias
        acc.add(t["as"]["p"])
        return acc
    if k == "named":
        acc.add(t["p"])
    elif k == "struct":
        for f in t["f"]:
            used(f["t"], acc)
    elif "t" in t:
        used(t["t"], acc)
    return acc


def rename(p):
    """Name under which package p is imported."""
    return "pk_" + "".join(c if c.isalnum() else "_" for c in p)


def plain(t):
    """Without the names of aliases, which stand for their types."""
    if isinstance(t, dict):
        return {k: plain(v) for k, v in t.items() if k not in ("as", "alias")}
    return [plain(x) for x in t] if isinstance(t, list) else t


def shown(t):
    """Name of a type in its package, that of an alias if it has one."""
    return t["as"]["n"] if "as" in t else t["n"]


def src(t, pkg, ind="\t"):
    k = t["k"]
    if "as" in t:
        return t["as"]["n"] if t["as"]["p"] == pkg else rename(t["as"]["p"]) + "." + t["as"]["n"]
    if k == "basic":
        return {"uint8": "byte", "int32": "rune"}.get(t["b"], t["b"]) if t.get("_alias") else t["b"]
    if k == "named":
        return t["n"] if t["p"] == pkg else rename(t["p"]) + "." + t["n"]
    if k == "ptr":
        return "*" + src(t["t"], pkg, ind)
    if k == "slice":
        return "[]" + src(t["t"], pkg, ind)
    if k == "array":
        return "[%d]" % t["len"] + src(t["t"], pkg, ind)
    if k == "map":
        return "map[%s]" % t["key"] + src(t["t"], pkg, ind)
    if k == "chan":
        return "chan " + src(t["t"], pkg, ind)
    if k == "other":
        return t["src"]
    s = "struct {\n"
    for f in t["f"]:
        s += ind + ("" if f["emb"] else f["n"] + " ") + src(f["t"], pkg, ind + "\t")
        if f["tag"]:
            s += " `" + f["tag"] + "`"
        s += "\n"
    return s + ind[1:] + "}"


def source(decls, pkg, comments=(), name="p", blank=(), r=None):
    """Source files of a package; comments maps type names to comment lines."""
    imps = set()
    for t in decls.values():
        used(t, imps)
    imps.discard(pkg)
    s = "package %s\n\n" % name
    for p in sorted(imps):
        s += 'import %s "%s"\n' % (rename(p), p)
    for p in sorted(set(blank) - imps):
        s += 'import _ "%s"\n' % p
    s += "\n"
    items = list(decls.items())
    if r:
        r.shuffle(items)
    for n, t in items:
        for c in dict(comments).get(n, []):
            s += c + "\n"
        s += "type %s %s%s\n\n" % (n, "= " if t.get("alias") else "", src(t, pkg))
    for c in dict(comments).get("", []):
        s += c + "\n"
    return s


class Gen:
    """Random programs. Types of a package refer to those of earlier packages
    and of their own."""

    def __init__(self, r, pkgs=None, ntypes=(1, 5), depth=3, bad=.03, tags=.5, time=True, emb=.25, anon=True,
                 arrays=True, ptrs=True, badtags=0, rec=True, unexported=.15, fields=(0, 5), rich=True, structs=.6, loops=True, like=.15, req=.3,
                 alias=.1):
        self.r, self.depth, self.bad, self.tags, self.time = r, depth, bad, tags, time
        self.emb, self.anon, self.arrays, self.badtags, self.rec = emb, anon, arrays, badtags, rec
        self.unexported, self.nf, self.rich, self.structs = unexported, fields, rich, structs
        self.like, self.req = like, req
        self.loops = loops      # types which are no structs may contain themselves
        self.pkgs = pkgs or [["ex.com/a", "ex.com/b", "ex.com/b/c"][i] for i in range(r.choice([1, 1, 2, 3]))]
        self.names = {}
        self.aliases = set()
        self.kind = {}
        i = 0
        for p in self.pkgs:
            self.names[p] = []
            for _ in range(r.randint(*ntypes)):
                # the same names in several packages
                n = r.choice(["T", "User", "Item", "Node", "A", "B", "É", "Page", "Time", "X1", "lower", "String"])
                if self.names[p] and r.random() < .12:      # told apart by case only
                    n = r.choice(self.names[p])
                    n = r.choice([n.upper(), n[0].lower() + n[1:], n[:-1] + n[-1].swapcase()])
                    n = n if n not in ("string", "any", "É".lower()) else "T"
                if n not in self.names[p]:
                    self.names[p].append(n)
                    self.kind[p, n] = "struct" if r.random() < structs else "any"
                    if r.random() < alias:
                        self.aliases.add((p, n))
        self.uniq = 0
        self.decls = {p: {} for p in self.pkgs}
        for k, p in enumerate(self.pkgs):
            self.pi = k
            self.pkg = p
            for j, n in enumerate(self.names[p]):
                self.cur = j
                self.decls[p][n] = self.decl(p, n)
        if self.time and any("time" in used(t, set()) for d in self.decls.values() for t in d.values()):
            self.decls["time"] = {"Time": struct([
                {"n": "wall", "t": basic("uint64"), "emb": False, "x": False, "tag": "", "jn": "", "jo": [], "on": "",
                 "oo": []},
                {"n": "ext", "t": basic("int64"), "emb": False, "x": False, "tag": "", "jn": "", "jo": [], "on": "",
                 "oo": []}]), "Duration": basic("int64")}

    def allpkgs(self):
        return (["time"] if "time" in self.decls else []) + self.pkgs

    def pick(self, direct, kind=None):
        """A named type; direct: one that is complete already or elsewhere, so
        that no type contains itself."""
        c = []
        for k in range(self.pi + 1):
            p = self.pkgs[k]
            for j, n in enumerate(self.names[p]):
                if k == self.pi and direct and j >= self.cur:
                    continue
                if k == self.pi and not self.rec and j >= self.cur:
                    continue
                if k < self.pi and not n[0].isupper():
                    continue
                if kind and self.kind[p, n] != kind:
                    continue
                if (p, n) in self.aliases:
                    d = self.decls[p].get(n)
                    if d:
                        d = copy.deepcopy(d)
                        d.pop("alias")
                        c.append(dict(d, **{"as": {"p": p, "n": n}}))
                    continue
                c.append(named(p, n))
        return self.r.choice(c) if c else None

    def type(self, depth, direct=True, anon=True):
        r = self.r
        x = r.random()
        if r.random() < self.bad:
            return other(r.choice(OTHERS))
        if depth <= 0 or x < .25:
            if self.time and r.random() < .08:
                return TIME
            return basic(r.choice(BASICS))
        if x < .5:
            return self.pick(direct) or basic(r.choice(BASICS))
        if x < .62:
            return ptr(self.type(depth - 1, False, anon))
        if x < .76:
            return slc(self.type(depth - 1, False, anon))
        if x < .84:
            return mp(self.type(depth - 1, False, anon), r.choice(["string", "string", "int", "string"]))
        if x < .9 and self.arrays:
            return arr(self.type(depth - 1, direct, anon), r.choice([0, 1, 2, 5]))
        if self.anon and anon:
            if r.random() < self.like:      # one which has the fields of a named one
                x = self.pick(True, "struct")
                d = x and x["k"] == "named" and x["p"] == self.pkg and self.decls[x["p"]].get(x["n"])
                if d and not any(f["emb"] for f in d["f"]):
                    return copy.deepcopy(d)
            return self.struct(depth - 1, small=True, anon=True)
        return basic(r.choice(BASICS))

    def decl(self, p, n):
        r = self.r
        if (p, n) in self.aliases:
            t = self.pick(True, "struct" if r.random() < .6 else None) or basic(r.choice(BASICS))
            if r.random() < .4:
                t = r.choice([ptr, slc, mp])(t)
            self.kind[p, n] = self.kind[t["p"], t["n"]] if t["k"] == "named" and t["p"] != "time" else "any"
            return dict(t, alias=True)
        if self.kind[p, n] == "struct":
            return self.struct(self.depth)
        x = r.random()
        if x < .3:
            return basic(r.choice(BASICS))
        rec, self.rec = self.rec, self.rec and self.loops
        t = self.type(self.depth, True)
        self.rec = rec
        if t["k"] == "named" and t["p"] == "time":
            t = slc(t)
        return t

    def fname(self):
        self.uniq += 1
        x = self.r.random()
        if x < self.unexported:
            return "u%d" % self.uniq
        n = self.r.choice(["F", "Name", "ID", "É", "Val_", "X"]) + str(self.uniq)
        return n + "_" if any(n in x for x in self.names.values()) else n

    def struct(self, depth, small=False, anon=False):
        r = self.r
        f, embs, names = [], set(), set()
        for _ in range(r.randint(*self.nf) if not small else r.randint(0, 2)):
            if not anon and r.random() < self.emb:
                t = self.pick(True, "struct" if r.random() < .8 else None)
                viaptr = r.random() < .3
                if viaptr:
                    t = self.pick(False, "struct") or t
                # pointers cannot be embedded through named pointer types
                if t is None or t["k"] != "named" or shown(t) in embs or shown(t) in names:
                    continue
                if self.kind[t["p"], t["n"]] != "struct":
                    d = self.decls[t["p"]].get(t["n"])
                    if d is None or viaptr or d["k"] in ("ptr", "other"):
                        continue
                    if d["k"] == "named":
                        continue
                embs.add(shown(t))
                f.append(self.field(shown(t), ptr(t) if viaptr else t, True))
                continue
            n = self.fname()
            if n in names or n in embs:
                continue
            names.add(n)
            f.append(self.field(n, self.type(depth - 1, True, anon=not anon or r.random() < .3), False))
        return struct(f)

    def field(self, n, t, emb):
        r = self.r
        jn = on = None
        jo, oo = [], []
        extra = ""
        if r.random() < self.tags:
            if r.random() < .5:
                jn = r.choice(["", "a", "b", "c", "id", "name", "-", "snake_case", "x-y", "é"])
                if r.random() < .3:
                    jo = [{"k": r.choice(["omitempty", "omitempty", "string", "inline"]), "v": ""}]
                    if jo[0]["k"] == "inline" and self.r.random() < .5:
                        jo = [{"k": "omitempty", "v": ""}]
            if r.random() < .6:
                on = r.choice(["", "", "a", "b", "d", "-", "name", "x.y", "É"])
                if on != "-":
                    oo = self.options(t, emb)
            extra = r.choice(["", "", "", 'yaml:"z"', 'validate:"required"', 'xml:"oapi"'])
        if emb and jn == "-" and on is None and r.random() < .5:
            jn = None
        return field(n, t, emb, jn, jo, on, oo, extra)

    def kindof(self, t, left=20):
        if left == 0:
            return "struct"
        while t["k"] in ("ptr", "slice", "array", "map"):
            t = t["t"]
        if t["k"] == "named" and t["p"] != "time":
            d = self.decls[t["p"]].get(t["n"])
            return self.kindof(d, left - 1) if d else "struct"
        return t.get("b", t["k"])

    def top(self, t):
        if t["k"] == "named" and t["p"] != "time":
            d = self.decls[t["p"]].get(t["n"])
            return self.top(d) if d else "struct"
        return t["k"]

    def tostruct(self, t):
        """Is it a struct, or a pointer to one?"""
        top = self.top(t)
        if top == "ptr":
            while t["k"] == "named":
                t = self.decls[t["p"]].get(t["n"])
                if not t:
                    return False
            top = self.top(t["t"])
        return top == "struct"

    def options(self, t, emb):
        """Options which make sense for the type."""
        r, o = self.r, []
        p = .35 if self.rich else .1

        def add(k, v, q=None):
            if r.random() < (p if q is None else q):
                o.append({"k": k, "v": v})
        leaf, top = self.kindof(t), self.top(t)
        typ = None
        if r.random() < .08 and not emb:
            typ = r.choice(BASICS + ["integer", "float", "double", "base64", "uuid", "password", "number", "object",
                                     "string"])
            if self.badtags and r.random() < self.badtags:
                typ = r.choice(["int33", "text", "String", "array"])
            o.append({"k": "type", "v": typ})
            leaf = {"integer": "int32", "float": "float32", "double": "float64", "base64": "string", "uuid": "string",
                    "password": "string", "number": "float64"}.get(typ, typ)
            top = leaf
        flag = lambda: r.choice(["", "", "true", "false", "1", "0"])
        add("required", flag(), self.req)
        add("nullable", flag(), .2)
        add("readonly", flag(), .1)
        add("writeonly", flag(), .1)
        add("deprecated", flag(), .1)
        add("omitempty", "", .05)
        add("format", r.choice(["date-time", "email", "x", ""]), .15)
        num = lambda: r.choice(["0", "1", "10", "-5", "1.5", "0.25", "1000"])
        cnt = lambda: r.choice(["0", "1", "2", "10", "255"])
        if leaf in BASICS and leaf not in ("bool", "string"):
            add("emin" if r.random() < .4 else "min", num())
            add("emax" if r.random() < .4 else "max", num())
            add("mulof", r.choice(["1", "2", "0.5", "10"]))
        if leaf == "string":
            add("minlen", cnt())
            add("maxlen", cnt())
            add("pattern", r.choice(["[a-z]+", "^a$", "(a|b)*", "x", "a b", "[0-9]{3}", "é", "^[A-Z]:[a-z]$", "[0-9]{1,3}", "^\\d+(,\\d+)*$"]))
        if top in ("slice", "array"):
            add("minitems", cnt())
            add("maxitems", cnt())
            add("unique", flag())
        if top == "map" or typ == "object":
            add("minprops", cnt())
            add("maxprops", cnt())
        if emb or (self.tostruct(t) and r.random() < .3):
            add("inline", flag(), .3)
        if self.badtags and r.random() < self.badtags and o:
            x = r.choice(o)
            if x["k"] not in ("pattern", "format", "type"):
                x["v"] = r.choice(["x", "1x", "-", "yes", "1.2.3", "tru e", "--1"])
        r.shuffle(o)
        return o

    def case(self, ptrs=None, reg=None, order=None):
        pkgs = []
        for p in self.allpkgs():
            s = TIMESRC if p == "time" else source(self.decls[p], p, r=self.r)
            pkgs.append({"path": p, "src": [s]})
        at = ptrs or [(p, [n]) for p in self.pkgs for n in self.names[p]]
        texts = [text(p, t) for p, t in at]
        c = {"m": "types", "decls": plain(self.decls), "pkgs": pkgs, "at": [{"p": p, "toks": t} for p, t in at],
             "ptrs": texts, "reg": sorted(set(texts) | set(reg or []))}
        if order:
            c["order"] = order
        return c

    def und(self, t):
        while t["k"] == "named":
            t = self.decls[t["p"]][t["n"]]
        return t

    def paths(self, p, n, limit=40):
        """Some addresses below a type, random walk."""
        out = []
        for _ in range(limit):
            toks, t = [n], self.decls[p][n]
            for _ in range(self.r.randint(0, 6)):
                u = self.und(t)
                if u["k"] == "struct":
                    fs = [f for f in u["f"]]
                    if not fs:
                        break
                    f = self.r.choice(fs)
                    toks.append(f["n"])
                    t = f["t"]
                elif u["k"] == "ptr":
                    toks.append("*")
                    t = u["t"]
                elif u["k"] in ("slice", "array", "map"):
                    toks.append("[]")
                    t = u["t"]
                else:
                    break
            if toks not in out:
                out.append(toks)
        return out


def esc(t):
    return t.replace("~", "~0").replace("/", "~1").replace("%", "%25")


def text(p, toks):
    return "go://%s#%s" % (p, "".join("/" + esc(t) for t in toks))


def large(r):
    """Programs of few kinds of types, but deep, long or wide ones: declarations and addresses."""
    A = "ex.com/a"
    decls = {"S": struct([field("A", basic("string"))]), "M": mp(named(A, "S")), "L": slc(basic("int8"))}
    at, kind = [], r.choice(["nest", "nest", "wide", "embed", "chain", "ptrs"])
    leaf = lambda: r.choice([basic(r.choice(BASICS)), named(A, "S"), named(A, "M"), named(A, "L")])
    if kind == "nest":
        t, toks = leaf(), []
        for _ in range(r.randint(6, 30)):
            x = r.random()
            t, k = (slc(t), "[]") if x < .3 else (mp(t), "[]") if x < .5 else (arr(t, r.randint(0, 20)), "[]") if x < .6 else \
                (ptr(t), "*") if x < .8 else (struct([field("F", t), field("G", basic("bool"))]), "F")
            toks.insert(0, k)
        decls["T"] = t
        decls["F"] = struct([field("X", t)])
        at = [(A, ["T"]), (A, ["F"])] + [(A, ["T"] + toks[:i]) for i in r.sample(range(1, len(toks) + 1), 4)]
        at.append((A, ["F", "X"] + toks))
        at += [(A, ["T"] + toks + [x]) for x in ("[]", "F")] + [(A, ["T"] + toks[:-1] + ["X"])]
    elif kind == "wide":
        n = r.randint(11, 60)
        fs = [field("F%d" % i, leaf(), False, r.choice([None, "n%d" % (i % (n - 3)), "-" if r.random() < .2 else None]),
                    [{"k": "omitempty", "v": ""}] if r.random() < .3 else [], None,
                    [{"k": "required", "v": r.choice(["true", "false"])}] if r.random() < .3 else []) for i in range(n)]
        decls["T"] = struct(fs)
        decls["U"] = struct([field("T", named(A, "T"), True)] + ([field("F3", basic("bool"))] if r.random() < .5 else []))
        at = [(A, ["T"]), (A, ["U"])] + [(A, ["T", "F%d" % i]) for i in (0, n - 1, n, r.randrange(n))] + [(A, ["U", "T", "F%d" % (n - 1)])]
    elif kind == "embed":
        n = r.randint(6, 20)
        for i in range(n):
            fs = [field(r.choice(["A", "B", "C%d" % i]), leaf(), False, r.choice([None, None, "a", "b", "c"]))] if r.random() < .8 else []
            if i:
                by = named(A, "E%d" % (i - 1))
                fs.append(field("E%d" % (i - 1), r.choice([by, ptr(by)]), True))
            if i > 2 and r.random() < .3:
                fs.append(field("E%d" % (i - 2), named(A, "E%d" % (i - 2)), True))
            r.shuffle(fs)
            decls["E%d" % i] = struct(fs)
        at = [(A, ["E%d" % i]) for i in (n - 1, n - 2, n // 2)] + [(A, ["E%d" % i for i in range(n - 1, -1, -1)]),
                                                                (A, ["E%d" % i for i in range(n - 1, 0, -1)] + ["A"])]
    elif kind == "chain":
        n = r.randint(6, 30)
        for i in range(n):
            to = named(A, "C%d" % (i + 1)) if i + 1 < n else r.choice([basic("bool"), ptr(named(A, "C0")), slc(named(A, "C%d" % (n // 2)))])
            decls["C%d" % i] = struct([field("F", r.choice([ptr, slc, mp, lambda t: t])(to))]) if r.random() < .7 else r.choice([slc, mp, ptr])(to)
        for i in (0, n // 2):
            toks, t = ["C%d" % i], decls["C%d" % i]
            while len(toks) < 60:
                at.append((A, list(toks)))
                if t["k"] == "named":
                    t = decls[t["n"]]
                elif t["k"] == "struct":
                    t = t["f"][0]["t"]
                    toks.append("F")
                elif "t" in t:
                    toks.append("*" if t["k"] == "ptr" else "[]")
                    t = t["t"]
                else:
                    break
        at = r.sample(at, min(len(at), 8)) + [(A, ["C0"]), (A, ["C%d" % (n - 1)])]
    else:
        n = r.randint(4, 15)
        decls["P0"] = ptr(r.choice([basic("string"), named(A, "S"), slc(named(A, "S"))]))
        for i in range(1, n):
            decls["P%d" % i] = r.choice([ptr, ptr, ptr, slc, lambda t: t])(named(A, "P%d" % (i - 1)))
        decls["T"] = struct([field("F", named(A, "P%d" % (n - 1))), field("G", ptr(ptr(named(A, "P%d" % (n // 2)))))])
        at = [(A, ["T"]), (A, ["P%d" % (n - 1)]), (A, ["T", "F"]), (A, ["T", "G", "*"])] + [(A, ["P%d" % (n - 1)] + ["*"] * k) for k in (1, 2, n, n + 3)]
    seen, out = set(), []
    for a in at:
        if text(*a) not in seen:
            seen.add(text(*a))
            out.append(a)
    return {A: decls}, out

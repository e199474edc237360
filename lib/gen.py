"""Random documents in the tagged form of spec/Values.tla."""

ODD = ["a", "b", "c", "a.b", "a~b", "~0", "~1", "~", ".", "..", "a/b", "/", "%", "%25", "a b", "", "0", "1",
       "*", "-", "$ref", "x-y", "é", "日本", "a~1b", "~01", "a.b.c", "#", "{id}", "/pets/{id}", "get", "\"", "<&>",
       "A", "a:b", "true", "null", "01", "1.5", "\u00a0", "😀", "\\", "a\nb", "`"]


def obj(d):
    return {"o": dict(d)} if d else {"e": "o"}


def keys(v):
    return v.get("o", {})


def arr(l):
    return {"a": list(l)}


def t(s):
    return {"s": "t:" + s}


def num(n):
    return {"s": "n:" + str(n)}


def b(x):
    return {"s": "b:true" if x else "b:false"}


NULL = {"s": "z"}


def tag(v):
    """Tags a plain python value."""
    if v is None:
        return NULL
    if isinstance(v, bool):
        return b(v)
    if isinstance(v, (int, float)):
        return num(v)
    if isinstance(v, str):
        return t(v)
    if isinstance(v, list):
        return arr([tag(x) for x in v])
    return obj({k: tag(x) for k, x in v.items()})


def untag(v):
    if "e" in v:
        return {}
    if "o" in v:
        return {k: untag(x) for k, x in v["o"].items()}
    if "a" in v:
        return [untag(x) for x in v["a"]]
    s = v["s"]
    if s == "z":
        return None
    if s.startswith("t:"):
        return s[2:]
    if s == "b:true":
        return True
    if s == "b:false":
        return False
    f = float(s[2:])
    return int(f) if f == int(f) else f


def text(v):
    """What is printed of a value, by some language or other."""
    if "s" in v:
        return "<nil>" if v == NULL else v["s"][2:]
    if "a" in v:
        return "[" + " ".join(text(x) for x in v["a"]) + "]"
    return "map[" + " ".join(k + ":" + text(x) for k, x in sorted(keys(v).items())) + "]"


def plain(x):
    """Text of a number, as the harness writes it."""
    return int(x) if x == int(x) else "%.6g" % x if abs(x) > 1e-4 else 1


def near(r, v):
    """Another value which is easily taken for v."""
    o = [t(text(v))]
    if "s" in v:
        s = v["s"]
        o.append(arr([v]))
        if s == "z":
            o += [t(""), t("null"), b(False), num(0), arr([]), obj({}), arr([NULL])]
        elif s[0] == "b":
            o += [b(s != "b:true"), t(s[2:]), num(int(s == "b:true")), NULL]
        elif s[0] == "n":
            o += [t(s[2:]), num(s[3:] if s[2] == "-" else "-" + s[2:]), num(plain(float(s[2:]) + .5)) if abs(float(s[2:])) < 1e5 else num(1)]
            if len(s) > 15 and s[2:].lstrip("-").isdigit():
                n = int(s[2:])
                o += [num(n + (1 if n < 0 else -1))] * 3
            if float(s[2:]) in (0, 1):
                o.append(b(s == "n:1"))
        else:
            x = s[2:]
            o += [t(x + x)] if "#" in x else [t(x + " "), t(" " + x), t(x.upper()), t(x.lower()), t(x[:-1]), t(x + x)]
            if x in ("true", "false"):
                o.append(b(x == "true"))
            if x.isdigit():
                o.append(num(int(x)))
            if not x:
                o.append(NULL)
    elif "a" in v:
        a = v["a"]
        o += [arr(a[::-1]), arr(a + a[-1:]), arr(a[:-1]), arr([v]), obj({str(i): x for i, x in enumerate(a)})]
        if a:
            i = r.randrange(len(a))
            o += [arr(a[:i] + [near(r, a[i])] + a[i + 1:])] * 3 + [a[0]]
        else:
            o += [NULL, obj({})]
    else:
        k = sorted(keys(v))
        o += [arr([]), NULL, arr([v])]
        if k:
            k = r.choice(k)
            o += [obj(dict(v["o"], **{k: near(r, v["o"][k])}))] * 3 + [arr([v["o"][x] for x in sorted(v["o"])])]
    # integers beyond 64 bits are no exact values anywhere
    o = [x for x in o if not ("s" in x and x["s"][:2] == "n:" and x["s"][2:].lstrip("-").isdigit() and not -2**63 <= int(x["s"][2:]) < 2**64)]
    o = [x for x in o if x != v and not ("s" in x and "s" in v and x["s"][0] == v["s"][0] == "n" and float(x["s"][2:]) == float(v["s"][2:]) and abs(float(v["s"][2:])) < 1e6)]
    return r.choice(o)


def scalar(r, null=True):
    k = r.randrange(10)
    if k == 0 and null:
        return NULL
    if k <= 2:
        return b(r.random() < .5)
    if k <= 4:
        return num(r.choice(["0", "1", "2", "-1", "10", "1.5", "-0.25", "123456", "1000000", "9007199254740993",
                             "-9223372036854775808", "18446744073709551615", "1e+21", "1.5e-07"]))
    return t(r.choice(["", "x", "y", "go", "a.b", "~", "/", "b:true", "null", "1", "é", "<b>", "`", "\\", "\"", "%",
                       "line\nbreak", "tab\t", "#", "- a", "k: v", " pad "]))


# What has a meaning in documents of OpenAPI, and has none at the place where it is put here.
MEANT = ["example", "examples", "default", "enum", "const", "description", "title", "type", "format", "schema", "schemas", "items",
         "properties", "additionalProperties", "allOf", "oneOf", "not", "mapping", "discriminator", "required", "parameters",
         "responses", "requestBody", "content", "headers", "links", "callbacks", "operationId", "x-internal", "x-examples", "value",
         "externalValue", "nullable", "deprecated", "get", "post", "200", "application/json", "$id", "$schema", "$defs",
         "definitions", "url", "name", "in", "id"]


def key(r, odd=.4, plain=("a", "b", "c", "d")):
    if r.random() < odd:
        return r.choice(ODD)
    return r.choice(MEANT) if plain == ("a", "b", "c", "d") and r.random() < .3 else r.choice(plain)


def value(r, depth, odd=.4, width=3, arrs=.3, objs=.5, null=True, plain=("a", "b", "c", "d")):
    x = r.random()
    if depth > 0 and x < objs:
        return doc(r, depth - 1, odd, width, arrs, objs, null, plain)
    if depth > 0 and x < objs + arrs:
        return arr([value(r, depth - 1, odd, width, arrs, objs, null, plain)
                    for _ in range(r.choice([0, 1, 1, 2, 3, 3, 12] if r.random() < .1 else [0, 1, 2, 3]))])
    return scalar(r, null)


def doc(r, depth=3, odd=.4, width=3, arrs=.3, objs=.5, null=True, plain=("a", "b", "c", "d")):
    return obj({key(r, odd, plain): value(r, depth, odd, width, arrs, objs, null, plain)
                for _ in range(r.randint(0, width))})


def big(r, odd=.3, null=True):
    """A deep document, a wide one, one with long lists, or with long texts."""
    x = r.random()
    if x < .45:
        v = obj({key(r, odd): scalar(r, null)}) if r.random() < .7 else scalar(r, null)
        for _ in range(r.randint(7, 40)):
            if r.random() < .2:
                v = arr([scalar(r, null)] * r.choice([0, 0, 1, 11]) + [v])
            else:
                v = obj(dict([(key(r, odd), scalar(r, null)) for _ in range(r.choice([0, 0, 1, 2]))] + [(key(r, odd), v)]))
        return v if "o" in v else obj({"a": v})
    if x < .75:
        return obj({r.choice(["k%d", "%d", "k.%d", "~%d", "/a/%d", "K%d"]) % i: value(r, 1, odd, 2, null=null) for i in range(r.randint(12, 60))})
    if x < .9:
        return obj({key(r, odd): arr([value(r, 1, odd, 2, null=null) for _ in range(r.randint(11, 60))]) for _ in range(2)})
    n = r.choice([100, 257, 1025, 5000])
    return obj({key(r, odd): t("x" * n), "k" * n: t("é" * n), "l": t("line\n" * n), "a." * 20: arr([t("<&>`\"\\" * (n // 9))])})

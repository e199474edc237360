"""Random route patterns and paths."""
METHODS = ["get", "put", "post", "delete", "options", "head", "patch", "trace"]
ODDM = ["GET", "Post", "pAtCh", "PROPFIND", "version-control", "connect", "LINK", "link", "update", "Lock", "unlock", "pri"]
SEG = ["pets", "a", "b", "v1", "users", ".well-known", "a.b", "x+y", "(x)", "[a]", "a|b", "^a", "a$", "a?", "\\d", "é",
       "A", "Pets", "pet", "a:b", "%20", "a b", "_", "-", "{", "}", "{}", "{{id}}", "日本", "a\nb", "\n", ".*", ".+", "a{2}", "\\"]
VARS = ["{id}", "{petId}", "{a1}", "{userID}", "{longName99}", "{a}", "{pet_id}", "{Pet-ID}", "{9}", "{a b}", "{é}", "{a.b}", "{.+}", "{a:b}"]


def pattern(r, plain=False):
    n = r.choice([1, 1, 2, 2, 3, 4])
    p = ""
    for _ in range(n):
        p += "/"
        x = r.random()
        if x < .45:
            p += r.choice(SEG[:5] if plain or r.random() < .4 else SEG)
        elif x < .75:
            p += r.choice(VARS)
        elif x < .85:
            p += r.choice(VARS) + r.choice([".json", "-x", ":act", "", ""])
        elif x < .95:
            p += "*"
        else:
            p += r.choice(SEG[:5]) + "*"
    if r.random() < .15:
        p += "/"
    if r.random() < .1:
        p += r.choice(SEG)
    if r.random() < .08:
        p = p[1:]
    x = r.random()
    if x < .3:
        p = r.choice(METHODS) + ":" + p
    elif x < .45:
        p = r.choice(ODDM) + ":" + p
    elif x < .5:
        p = r.choice(["foo", "get ", "x-get", "gett", ""]) + ":" + p
    return p


def instance(r, p):
    """A path the pattern matches, more or less."""
    i = p.find(":")
    if i > 0 and (p[:i].lower() in METHODS or p[:i] in ODDM):
        p = p[i + 1:]
    for v in VARS:
        while v in p:
            p = p.replace(v, r.choice(["7", "x", "{id}", "abc", "a.b", "A", "é", ".", "a:b", "a\nb"]), 1)
    while "*" in p:
        p = p.replace("*", r.choice(["", "q", "q/w", "/", "a/", "{id}", ".", "a\nb", "\n"]), 1)
    x = r.random()
    if x < .45:
        return p
    if x < .55:
        return p + r.choice(["/", "x", "/x", "/x/y", "\\"])
    if x < .65:
        return r.choice(["/", "x", "/x"]) + p
    if x < .75 and p:
        k = r.randrange(len(p))
        return p[:k] + p[k + 1:]
    if x < .85 and p:
        k = r.randrange(len(p))
        return p[:k] + r.choice(["/", "x", ".", "a"]) + p[k + 1:]
    if x < .9:
        return p.upper()
    if x < .95:
        return p.replace("/", "//", 1)
    return p.rstrip("/")


def path(r):
    return instance(r, pattern(r))


def method(r):
    x = r.random()
    if x < .6:
        return r.choice(METHODS)
    return r.choice(ODDM + ["", "GET", "POST", "x"])

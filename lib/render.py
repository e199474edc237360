"""Text of documents (tagged form) in the formats of specification and configuration files, in several styles."""
import json
import re

PLAIN = re.compile(r"^[A-Za-z][A-Za-z0-9_/-]*$")
WORDS = {"true", "false", "null", "yes", "no", "on", "off", "y", "n", "nan", "inf"}


def jtext(v, indent=None, level=0):
    """JSON; numbers are written as they are tagged."""
    nl = "" if indent is None else "\n" + " " * (indent * (level + 1))
    end = "" if indent is None else "\n" + " " * (indent * level)
    if "e" in v:
        return "{}"
    if "o" in v:
        return "{" + ",".join(nl + json.dumps(k, ensure_ascii=False) + ":" + ("" if indent is None else " ") +
                              jtext(x, indent, level + 1) for k, x in v["o"].items()) + end + "}"
    if "a" in v:
        if not v["a"]:
            return "[]"
        return "[" + ",".join(nl + jtext(x, indent, level + 1) for x in v["a"]) + end + "]"
    return jscalar(v)


def jscalar(v):
    s = v["s"]
    if s == "z":
        return "null"
    if s.startswith("t:"):
        return json.dumps(s[2:], ensure_ascii=False)
    return s[2:]


def ystr(r, s):
    if PLAIN.match(s) and s.lower() not in WORDS and r.random() < .6:
        return s
    if r.random() < .3 and s and all(" " <= c < "\x7f" for c in s) and s.strip() == s:
        return "'" + s.replace("'", "''") + "'"
    return json.dumps(s, ensure_ascii=False)


def ykey(r, k):
    if re.match(r"^[1-9][0-9]{0,5}$", k) and r.random() < .6:
        return k            # an integer, which is this text as a key
    return ystr(r, k)


def ytext(r, v, level=0):
    """Block style YAML; the caller puts it on lines of their own."""
    pad = "  " * level
    out = ""
    if "o" in v:
        for k, x in v["o"].items():
            out += pad + ykey(r, k) + ":" + ybelow(r, x, level)
        return out
    if "a" in v:
        for x in v["a"]:
            out += pad + "-" + ybelow(r, x, level)
        return out


def ybelow(r, x, level):
    if ("o" in x or ("a" in x and x["a"])) and r.random() < .9:
        return "\n" + ytext(r, x, level + 1)
    if "o" in x or "a" in x or "e" in x:
        return " " + jtext(x) + "\n"
    if r.random() < .1 and x["s"] == "z":
        return " ~\n"
    if x["s"].startswith("t:"):
        return " " + ystr(r, x["s"][2:]) + "\n"
    return " " + jscalar(x) + "\n"


def text(r, name, v):
    """Content of a file of this name."""
    if name.endswith(".json"):
        return jtext(v, r.choice([None, 2, 4])) + r.choice(["", "\n"])
    x = r.random()
    if x < .15 or "o" not in v:
        return jtext(v, r.choice([None, 2])) + "\n"
    return r.choice(["", "", "---\n", "# comment\n"]) + ytext(r, v)

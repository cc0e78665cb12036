"""Documents: the JSON form of the abstract documents of spec/Markup.tla.

Trees (plain, before formatting) are dicts {t, a: [(name, value)], x, k}."""


def T(t, *k, x="", **a):
    """A tree: tag, children, text, attributes."""
    return {"t": t, "a": [(n, v) for n, v in a.items()], "x": x, "k": list(k)}


def mi(x, **a): return T("mi", x=x, **a)
def mo(x, **a): return T("mo", x=x, **a)
def mn(x, **a): return T("mn", x=x, **a)
def mtext(x, **a): return T("mtext", x=x, **a)
def math(*k, **a): return T("math", *k, **a)
def mrow(*k, **a): return T("mrow", *k, **a)


def walk(n):
    yield n
    for c in n["k"]:
        yield from walk(c)


def size(n): return sum(1 for _ in walk(n))
def depth(n): return 1 + max([depth(c) for c in n["k"]], default=0)


# --- surface form -----------------------------------------------------------

def attr(name, value, q="d", w=" "):
    return {"n": name, "v": list(value), "q": q, "w": list(w)}


def text(x, h="plain", refs=None):
    d = {"k": "t", "h": h, "x": list(x)}
    if h == "ref":
        d["y"] = refs or [f"&#{ord(c)};" for c in x]
    return d


def comment(x): return {"k": "c", "x": list(x)}
def instr(x): return {"k": "p", "x": list(x)}
def doctype(x): return {"k": "d", "x": list(x)}
def entity(name, *items): return {"k": "r", "x": list("&" + name + ";"), "c": list(items)}
def junk(x): return {"k": "j", "x": [x]}


def elem(t, attrs=(), content=(), p="", z="", s=False):
    return {"k": "e", "t": t, "p": p, "a": list(attrs), "z": list(z), "s": s, "c": list(content)}


def doc(root, before=(), after=()):
    return {"b": list(before), "r": root, "f": list(after)}


def plain(n):
    """A tree written in the simplest way."""
    c = ([text(n["x"])] if n["x"] else []) + [plain(k) for k in n["k"]]
    return elem(n["t"], [attr(a, v) for a, v in n["a"]], c)


def plain_doc(n): return doc(plain(n))


# --- writing (the specification's WriteDoc; trace validation checks that the
#     text is the one the document stands for) ---------------------------------

def _esc_text(c): return {"&": "&amp;", "<": "&lt;", ">": "&gt;"}.get(c, c)


def _esc_attr(c, q):
    if c == q:
        return "&apos;" if q == "'" else "&quot;"
    return {"&": "&amp;", "<": "&lt;"}.get(c, c)


def _write_attr(a):
    v, q = a["v"], a["q"]
    s = "".join(a["w"]) + a["n"]
    if q in "ds" and "e" in a:
        s += "".join(a["e"][0]) + "=" + "".join(a["e"][1])
    elif q in "ds":
        s += "="
    if q in "ds" and "y" in a:
        quote = '"' if q == "d" else "'"
        return s + quote + "".join(a["y"]) + quote
    if q == "d":
        return s + '"' + "".join(_esc_attr(c, '"') for c in v) + '"'
    if q == "s":
        return s + "'" + "".join(_esc_attr(c, "'") for c in v) + "'"
    if q == "n":
        return s
    if q == "e":
        return s + "="
    return s + "=" + "".join(v)


def write(i):
    k = i["k"]
    if k == "t":
        if i["h"] == "plain":
            return "".join(map(_esc_text, i["x"]))
        if i["h"] == "cdata":
            return "<![CDATA[" + "".join(i["x"]) + "]]>"
        return "".join(i["y"])
    if k == "c":
        return "<!--" + "".join(i["x"]) + "-->"
    if k == "p":
        return "<?" + "".join(i["x"]) + "?>"
    if k == "d":
        return "<!DOCTYPE " + "".join(i["x"]) + ">"
    if k in ("j", "r"):
        return "".join(i["x"])
    s = "<" + i["p"] + i["t"] + "".join(map(_write_attr, i["a"])) + "".join(i["z"])
    if i["s"] and not i["c"]:
        return s + "/>"
    return s + ">" + "".join(map(write, i["c"])) + "</" + i["p"] + i["t"] + ">"


def raw(x):
    """A text of which no document is known."""
    return {"raw": 1, "x": x}


def write_doc(d):
    if "raw" in d:
        return d["x"]
    return "".join(map(write, d["b"])) + write(d["r"]) + "".join(map(write, d["f"]))

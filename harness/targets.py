"""Systematic inputs: for each property, the variants of the constructs it is
about (all of small spaces, seeded samples of large ones)."""
import copy, itertools

import corpus
from gen import *          # noqa
from gen import ACCENT_SCRIPTS, OPERANDS, opt

X, Y, Z = mi("x"), mi("y"), mi("z")


def some(r, xs, n):
    xs = list(xs)
    return xs if len(xs) <= n else r.sample(xs, n)


def el(t, kids, *attrs):
    return {"t": t, "a": [a for a in attrs if a and a[1] is not None], "x": "", "k": list(kids)}


def leaves(n, r=None):
    pool = [mi("a"), mn("1"), mo("+"), mi("xy"), mrow(mi("b"), mi("c")), mtext("t u")]
    return [mi("c%d" % i) if r is None or r.random() < .6 else r.choice(pool) for i in range(n)]


def widths(r):
    return [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 26, 33, 50, 65, 101]


def fill(t, w, ks):
    """An element of type t with (about) w children out of ks, repeated."""
    need = {"mfrac": 2, "mroot": 2, "msup": 2, "msub": 2, "munder": 2, "mover": 2, "msubsup": 3, "munderover": 3}.get(t, w)
    if t == "mmultiscripts":
        need = max(3, w)
    ks = [copy.deepcopy(ks[i % len(ks)]) for i in range(need)]
    if t == "mtable":
        ks = [k if k["t"] == "mtr" else el("mtr", [el("mtd", [k]), el("mtd", [copy.deepcopy(k)])]) for k in ks]
    if t == "mtr":
        ks = [el("mtd", [k]) for k in ks]
    return el(t, ks)


EVERY = ["mrow", "msqrt", "mfenced", "mtr", "mtable", "menclose", "merror", "maction", "mstyle", "foo", "mfrac", "mroot", "msup", "msub",
         "munder", "mover", "msubsup", "munderover", "mmultiscripts"]


def twins(r):
    """Constructs all of whose children are the same, or alternate."""
    subs = [mi("A"), mn("1"), mrow(mi("A"), mi("C")), T("msup", mi("A"), mn("2")), T("mfenced", mi("A"), mi("C")), mrow(),
            T("mfrac", mi("A"), mi("C")), T("mtable", T("mtr", T("mtd", mi("A")), T("mtd", mi("C"))))]
    out = []
    for t in EVERY:
        for w in (2, 3, 4):
            out += [fill(t, w, [x]) for x in subs]
            out += [fill(t, w, r.sample(subs, 2)) for _ in range(2)]
        out += [fill(t, 6, [r.choice(subs)]), fill(t, 5, r.sample(subs, 3))]
    return out


def selfnested(r):
    """Every construct in itself, several times; two taking turns."""
    out = []
    names = [c for c in sorted(CONTEXTS) if CONTEXTS[c] and c not in ("math", "twice")]
    for c in names:
        for d in (2, 3, 4, 6):
            x = r.choice([mi("K"), mrow(mi("K"), mn("2"))])
            for _ in range(d):
                x = CONTEXTS[c](x)
            out.append(x)
    for _ in range(90):
        a, b = r.sample(names, 2)
        x = mi("K")
        for i in range(r.choice([3, 4, 5])):
            x = CONTEXTS[a if i % 2 else b](x)
        out.append(x)
    return out


def siblings(r, n):
    """Rows of two and three things that stand next to each other."""
    pairs = [[a, b] for a in corpus.SIBLINGS for b in corpus.SIBLINGS]
    ks = some(r, pairs, n) + [[r.choice(corpus.SIBLINGS) for _ in range(3)] for _ in range(n // 3)]
    return [el(r.choice(["mrow"] * 5 + ["msqrt", "mtd", "menclose", "merror", "mstyle", "math"]), k) for k in ks]


def c08(r, n):
    pairs = list(itertools.product(OPERANDS, OPERANDS))
    out = [el("mfrac", p, ("bevelled", r.choice([None, None, "true", "false"]))) for p in some(r, pairs, n)]
    out += [el("mfrac", p, ("bevelled", b)) for b in BEVELLED for p in some(r, pairs, n // 15)]
    out += [el("mroot", p) for p in some(r, pairs, n // 2)]
    out += [el("msqrt", [o]) for o in OPERANDS] + [el("msqrt", p) for p in some(r, pairs, n // 8)]
    out += [el("msqrt", leaves(w, r)) for w in widths(r)]
    out += [el(t, [r.choice(OPERANDS), r.choice(OPERANDS)], a) for t in ("mfrac", "mroot", "msqrt") for a in NOISE_ATTRS]
    # the same construct inside itself, on both sides, several levels
    for t, d in itertools.product(["mfrac", "mroot", "msqrt", "bev"], [2, 3, 4, 5, 6, 8, 12]):
        for side in (0, 1):
            x = mi("u")
            for i in range(d):
                ks = [x, mi("v%d" % i)] if side == 0 else [mi("v%d" % i), x]
                x = el("mfrac", ks, ("bevelled", "true")) if t == "bev" else el(t, ks)
            out.append(x)
    return out


def c09(r, n):
    out = []
    for t in ("msup", "msub"):
        out += [el(t, p) for p in some(r, itertools.product(OPERANDS, OPERANDS), n)]
        out += [el(t, [b, r.choice(OPERANDS)]) for b in OPERANDS] + [el(t, [Z, b]) for b in OPERANDS]
    out += [el("msubsup", [r.choice(OPERANDS) for _ in range(3)]) for _ in range(n)]
    for b in OPERANDS:
        out += [el("msubsup", [b, Y, Z]), el("msubsup", [X, b, Z]), el("msubsup", [X, Y, b])]
    # compound bases of every kind of element and number of children
    for g in ["mrow", "mpadded", "mstyle", "mtd", "foo", "math2", "msqrt", "mfenced", "menclose", "merror", "maction",
              "mphantom", "mtable", "mtr", "semantics"]:
        for w in range(0, 5):
            for t in ("msup", "msub", "msubsup"):
                k = [el(g, leaves(w, r))] + [Y, Z][:2 if t == "msubsup" else 1]
                out.append(el(t, k))
    out += [el(t, [r.choice(OPERANDS), r.choice(OPERANDS), Z][:2], a) for t in ("msup", "msub") for a in NOISE_ATTRS]
    for t, d, side in itertools.product(["msup", "msub", "msubsup"], [2, 3, 4, 5, 7, 10], [0, 1, 2]):
        x = mi("u")
        for i in range(d):
            ks = [mi("v%d" % i), mi("w%d" % i), mi("z%d" % i)][:3 if t == "msubsup" else 2]
            ks[side % len(ks)] = x
            x = el(t, ks)
        out.append(x)
    return out


def c10(r, n):
    none, pre = T("none"), T("mprescripts")
    def label(ks):
        return [mi("s%d" % i) if k is None else k for i, k in enumerate(ks)]
    out = []
    bases = [X, mi("ab"), mrow(X, Y), mrow(mi("a"), mo("+"), mi("b")), mrow(X), T("none"), mtext("a b"), mrow(),
             T("mtable", T("mtr", X), T("mtr", Y)), T("mfenced", T("mtable", T("mtr", X))), mi("a b"), mo("\u00a0"), pre]
    for w in range(2, 7):
        space = itertools.product([None, none, pre], repeat=w)
        for ks in some(r, space, n // 2 if w > 4 else 10 ** 6):
            out.append(el("mmultiscripts", [r.choice(bases)] + label(ks)))
    for w in (7, 8, 9, 10, 12):
        for _ in range(n // 12):
            ks = [r.choice([None, None, None, none, pre]) for _ in range(w)]
            out.append(el("mmultiscripts", [r.choice(bases)] + label(ks)))
    out += [el("mmultiscripts", [b] + label(ks)) for b in OPERANDS + bases for ks in
            ([None, None], [pre, None, None], [None, None, pre, None, None])]
    for o in OPERANDS:
        out += [el("mmultiscripts", [X, o, Z, pre, mi("p"), mi("q")]), el("mmultiscripts", [X, Y, o, pre, mi("p"), mi("q")]),
                el("mmultiscripts", [X, Y, Z, pre, o, mi("q")]), el("mmultiscripts", [X, Y, Z, pre, mi("p"), o]),
                el("mmultiscripts", [X, pre, o, mi("q")]), el("mmultiscripts", [X, pre, mi("p"), o])]
    out += [el("mmultiscripts", [X, Y, Z, pre, r.choice(OPERANDS), none], a) for a in NOISE_ATTRS]
    return out


def c11(r, n):
    out = []
    for t in ("munder", "mover"):
        out += [el(t, p) for p in some(r, itertools.product(OPERANDS, OPERANDS), n)]
        out += [el(t, [b, s]) for s in ACCENT_SCRIPTS for b in some(r, OPERANDS, max(4, n // 60))]
        out += [el(t, [b, Y]) for b in OPERANDS] + [el(t, [Z, b]) for b in OPERANDS]
        out += [el(t, [s, X]) for s in ACCENT_SCRIPTS]
        out += [el(t, [X, r.choice([Y, mo("^"), mo("→")])], a) for a in NOISE_ATTRS]
        out += [el(t, [X, mo(k)]) for k in some(r, TABLE_KEYS, n)]
    out += [el("munderover", [r.choice(OPERANDS + ACCENT_SCRIPTS) for _ in range(3)]) for _ in range(n)]
    for b in OPERANDS + ACCENT_SCRIPTS:
        out += [el("munderover", [b, Y, Z]), el("munderover", [X, b, Z]), el("munderover", [X, Y, b])]
    for t, d, side in itertools.product(["munder", "mover", "munderover"], [2, 3, 4, 6], [0, 1, 2]):
        x = r.choice([mi("u"), mo("^")])
        for i in range(d):
            ks = [mi("v%d" % i), mi("w%d" % i), mi("z%d" % i)][:3 if t == "munderover" else 2]
            ks[side % len(ks)] = x
            x = el(t, ks)
        out.append(x)
    for a, b in itertools.product(["munder", "mover"], repeat=2):
        for s, t in itertools.product([mo("⏞"), mo("⏟"), mo("→"), mo("^")], repeat=2):
            out.append(el(a, [el(b, [X, s]), t]))
            out.append(el(a, [el(b, [mrow(X, Y), s]), mrow(t)]))
    return out


def c12(r, n):
    out = []
    for w in [0, 1, 2, 3, 4, 5, 6]:
        for s in SEPARATORS:
            out.append(el("mfenced", leaves(w), ("separators", s)))
            o, c = r.choice(FENCES), r.choice(FENCES)
            out.append(el("mfenced", leaves(w, r), ("open", o), ("close", c), ("separators", s)))
    for o, c in itertools.product(FENCES, FENCES):
        if r.random() < n / 600:
            out.append(el("mfenced", leaves(r.choice([0, 1, 2, 3])), ("open", o), ("close", c)))
    for o, c in FENCE_PAIRS:
        out += [el("mfenced", leaves(w), ("open", o), ("close", c)) for w in (0, 1, 3)]
    for _ in range(n):
        attrs = [("open", r.choice(FENCES)), ("close", r.choice(FENCES)),
                 ("separators", "".join(r.choice(",;.| :&ab") for _ in range(r.choice([1, 2, 3, 5, 8, 13]))))]
        r.shuffle(attrs)
        out.append(el("mfenced", [r.choice(OPERANDS[:45]) for _ in range(r.choice([1, 2, 3, 4, 6, 9, 14]))], *attrs))
    out += [el("mfenced", [o]) for o in OPERANDS] + [el("mfenced", [o, X, o], ("separators", ";|")) for o in OPERANDS]
    out += [el("mfenced", leaves(w, r), ("separators", r.choice(SEPARATORS))) for w in widths(r)]
    out += [el("mfenced", [X, Y], a) for a in NOISE_ATTRS]
    for d in (2, 3, 4, 6, 9):
        x = mi("u")
        for i in range(d):
            x = el("mfenced", [mi("v%d" % i), x, mi("w%d" % i)], ("open", r.choice(FENCES)), ("separators", r.choice(SEPARATORS)))
        out.append(x)
    return out


def grid(rows, cell):
    return el("mtable", [el("mtr", [el("mtd", [k for k in [cell(i, j)] if k]) for j in range(c)]) for i, c in enumerate(rows)])


def c13(r, n):
    name = lambda i, j: mi("a%d%d" % (i, j))
    out = []
    shapes = [rows for k in range(0, 5) for rows in itertools.product(range(0, 4), repeat=k)]
    for rows in some(r, shapes, max(60, n // 3)):
        out.append(grid(rows, name))
        out.append(grid(rows, lambda i, j: name(i, j) if r.random() < .6 else None))
    for rows in ([1] * 9, [9], [12, 12], [3] * 10, [1] * 30, [30], [5, 4, 3, 2, 1, 0]):
        out.append(grid(rows, name))
    for o, c in FENCE_PAIRS:
        t = grid(r.choice([[1], [2, 2], [1, 1], [3]]), name)
        a = [("open", o), ("close", c)]
        out += [el("mfenced", [t], *a), el("mfenced", [mrow(t)], *a), el("mfenced", [X, t, Y], *a),
                el("mfenced", [mrow(mrow(T("mstyle", t)))], *a), el("mfenced", [t, t], *a, ("separators", ";")),
                el("mfenced", [T("mfrac", t, X)], *a), el("mfenced", [T("msqrt", X, t)], *a[::-1]),
                el("mfenced", [T("mphantom", t), X], *a), el("mfenced", [el("mfenced", [t], *a)]),
                el("mfenced", [el("mfenced", [t]), X], *a), el("mfenced", [T("mtable")], *a),
                el("mtable", [el("mtr", [el("mtd", [el("mfenced", [t], *a)])])])]
    for o, c in itertools.product(FENCES, FENCES):
        if r.random() < n / 900:
            out.append(el("mfenced", [grid([2, 1], name)], ("open", o), ("close", c)))
    inner = grid([2, 1], lambda i, j: mi("b%d%d" % (i, j)))
    holes = [lambda t: el("mtd", [t]), lambda t: el("mtd", [mrow(X, t)]), lambda t: el("mtd", [T("mfrac", X, t)]),
             lambda t: el("mtd", [T("msup", t, Y)]), lambda t: el("mtd", [el("mfenced", [t], ("open", "["), ("close", "]"))]),
             lambda t: el("mtd", [T("mstyle", T("mrow", T("mpadded", t)))]), lambda t: el("mtd", [T("maction", X, t)]),
             lambda t: el("mtd", [T("menclose", t)]), lambda t: el("mtd", [T("munder", X, t)]),
             lambda t: el("mtd", [T("mmultiscripts", X, Y, t)]), lambda t: t, lambda t: el("mtd", [t, t])]
    for h in holes:
        out.append(el("mtable", [el("mtr", [h(inner), el("mtd", [X])])]))
        out.append(el("mtable", [el("mtr", [el("mtd", [X])]), el("mtr", [el("mtd", [Y]), h(inner)])]))
        out.append(el("mtable", [el("mtr", [h(el("mtable", [el("mtr", [h(inner)])]))])]))
        out.append(mrow(inner, el("mtable", [el("mtr", [h(inner)])]), inner))
        out.append(el("mtable", [h(inner), el("mtr", [el("mtd", [Y])])]))
    for d in (2, 3, 4, 5, 7):
        x = X
        for i in range(d):
            x = el("mtable", [el("mtr", [el("mtd", [mi("q%d" % i)]), r.choice(holes)(x)])])
        out.append(x)
    for a in NOISE_ATTRS:
        t = grid([2, 2], name)
        t["a"] = [a]
        t["k"][0]["a"] = [a]
        out += [t, el("mtable", [el("mtr", [el("mtd", [t])])], a), el("mfenced", [t], a)]
    out += [el("mtr", [el("mtd", [X]), el("mtd", [Y])]), el("mtable", [X, Y]), el("mtable", [el("mtr", [X, Y])]),
            el("mtable", [el("mlabeledtr", [el("mtd", [X]), el("mtd", [Y])])]), mrow(inner, inner), el("mtable", [])]
    out += [el("mtable", [el("mtr", [el("mtd", [o]), el("mtd", [X])]), el("mtr", [el("mtd", []), el("mtd", [o, Y])])]) for o in OPERANDS]
    return out


def c14(r, n):
    out = []
    for v in NOTATIONS + ODD_NOTATIONS:
        a = ("notation", v)
        out += [el("menclose", leaves(w), a) for w in (0, 1, 2, 3, 4, 7)]
        out += [el("menclose", [T("mspace")] * 2, a), el("menclose", [mrow(), mi(""), mtext("")], a), el("menclose", [mo("\u00a0")], a)]
        out += [el("menclose", [o], a) for o in some(r, OPERANDS, max(6, n // 20))]
        out += [el("menclose", [r.choice(OPERANDS) for _ in range(r.choice([1, 2, 3, 5]))], a) for _ in range(max(4, n // 50))]
        out += [el("menclose", [X, Y], a, b) for b in some(r, NOISE_ATTRS, 3) if b[0] != "notation"]
        out += [el("menclose", [X, Y], b, a) for b in some(r, NOISE_ATTRS, 3)]
        out += [el("menclose", [el("menclose", [X, Y], ("notation", w))], a) for w in some(r, NOTATIONS, 6)]
        x = el("menclose", [X], a)
        for d in range(r.choice([2, 3, 5])):
            x = el("menclose", [mi("v%d" % d), x], a)
        out.append(x)
    out += [el("menclose", leaves(w, r), ("notation", r.choice(NOTATIONS))) for w in widths(r)]
    return out


def c15(r, n):
    out = []
    for t in GROUPS:
        out += [el(t, leaves(w, r)) for w in (0, 1, 2, 3, 5)]
        out += [el(t, [r.choice(OPERANDS) for _ in range(r.choice([1, 2, 3]))]) for _ in range(max(2, n // 80))]
        g = el(t, [X, Y]); g["x"] = "stray text"
        out.append(g)
        g = el(t, []); g["x"] = "only text"
        out += [g, mrow(X, g, Y), T("msup", g, Y), el(t, [X], r.choice(NOISE_ATTRS))]
        out.append(el(t, [el(t, [el(r.choice(GROUPS), [X, Y])]), Z]))
    for t in ("mphantom", "merror", "maction"):
        out += [el(t, leaves(w, r)) for w in (0, 1, 2, 3, 5, 9)]
        out += [el(t, [o]) for o in OPERANDS] + [mrow(X, el(t, [o, Z]), Y) for o in OPERANDS]
        out += [el(t, [el(t, [X]), Y]), el(t, [X], ("id", "a"))]
        g = el(t, [X, Y]); g["x"] = "stray"
        out.append(g)
    for a in ACTIONS:
        out += [el("maction", leaves(w, r), ("actiontype", a)) for w in range(0, 6)]
        out += [el("maction", [r.choice(OPERANDS) for _ in range(r.choice([1, 2, 3]))], ("actiontype", a)) for _ in range(max(4, n // 60))]
        out += [el("maction", leaves(3), ("actiontype", a), ("selection", s)) for s in ("1", "2", "3", "")]
        out.append(el("maction", [el("maction", leaves(2), ("actiontype", a)), X], ("actiontype", r.choice(ACTIONS))))
    out += [el("mrow", leaves(w, r)) for w in widths(r)] + [el("merror", leaves(w, r)) for w in widths(r)]
    out += [el(r.choice(GROUPS), [], a) for a in NOISE_ATTRS] + [el("mrow", [X, Y], a) for a in NOISE_ATTRS]
    # names with a prefix other than mml:
    for t in ("mi", "mo", "mn", "mtext", "mrow", "mfrac", "msup", "msubsup", "msqrt", "mroot", "munder", "mfenced", "mtable", "mtr", "mphantom", "maction",
              "menclose", "merror", "mmultiscripts"):
        for pre in ("m:", "math:", "ml:", "mmlx:"):
            g = el(pre + t, leaves(r.choice([1, 2, 3])), ("xmlns:" + pre[:-1], "http://www.w3.org/1998/Math/MathML"))
            if r.random() < .3:
                g["x"] = "text"
            out += [g, mrow(X, g, Y), T("msup", g, Z)] if pre == "m:" else [g]
    # an ill-formed element in an unselected or hidden place is not converted
    bad = T("mfrac", X)
    out += [el("mphantom", [bad]), el("maction", [X, bad], ("actiontype", "tooltip")), mrow(el("mphantom", [mrow(bad)]), X)]
    for d in (3, 6, 12, 25):
        x = X
        for i in range(d):
            x = el(r.choice(GROUPS), [x] if r.random() < .6 else [x, mi("v%d" % i)])
        out.append(x)
    return out


def c16_keys(r, n):
    """Contents of tokens: table entries, near misses, plain text."""
    keys = list(TABLE_KEYS)
    near = []
    for k in some(r, keys, n):
        near += [k + "x", "x" + k, k + k, " " + k + " ", k.upper(), k.lower(), k[:-1], k + " ", k + " " + k, k + ";", k + "1", "&" + k]
    words = ["".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")
             for _ in range(r.choice([1, 2, 3, 4, 7, 20]))) for _ in range(n)]
    ascii1 = [chr(c) for c in range(33, 127)]
    ascii2 = ["".join(p) for p in some(r, itertools.product(ascii1, repeat=2), n)]
    nums = ["".join(r.choice("0123456789.,-+eE ") for _ in range(r.choice([1, 2, 3, 5, 9]))) for _ in range(n)]
    return keys, near + words + ascii1 + ascii2 + nums + WORDS + NUMS + OPS + ODD + NAMES


NAMES = ["alpha", "beta", "Gamma", "sum", "int", "infinity", "plus", "minus", "times", "sin", "cos", "tan", "lim", "log",
         "max", "min", "sup", "inf", "det", "gcd", "mod", "exp", "arg", "ker", "dim", "hom", "deg", "Pr", "and", "or", "not",
         "for", "in", "to", "hat", "bar", "vec", "tilde", "dot", "over", "under", "left", "right", "quad", "infty", "pi",
         "ln", "lg", "sinh", "cosh", "tanh", "cot", "sec", "csc", "arcsin", "Re", "Im", "limsup", "liminf", "argmax", "d",
         "e", "i", "ii", "dx", "dy", "DD", "dd", "ee", "e^x", "x_1", "f(x)", "None", "True", "nan", "inf", "NaN", "if"]


def unicode_chars(r, n):
    """Single characters, those the tables do not know included."""
    ranges = [(0xA1, 0x250), (0x2B0, 0x530), (0x1D00, 0x1F00), (0x1F00, 0x2000), (0x2010, 0x2028), (0x2030, 0x205F),
              (0x2061, 0x2C00), (0x3001, 0x3100), (0x1D400, 0x1D800), (0x1EE00, 0x1EF00), (0xFB00, 0xFB10), (0xFE30, 0xFE70),
              (0xFF01, 0xFFEF), (0x4E00, 0x4F00), (0x10300, 0x10350), (0x1F600, 0x1F650)]
    cs = [chr(c) for a, b in ranges for c in range(a, b)]
    return some(r, cs, n)


def c16(r, n):
    keys, others = c16_keys(r, n)
    out = [T("mrow", mi(k), mo(k), mn(k)) for k in keys + others]
    cs = unicode_chars(r, n * 20)
    out += [mrow(*[T(t, x=c) for c in cs[i:i + 5] for t in ("mi", "mo", "mn")]) for i in range(0, len(cs), 5)]
    return out


def c17(r, n):
    texts = ["a", "A", "ab", "1", "", "α", "∞", "é", "𝐀", "𝔄", "ℝ", "+", "sin", "lim", "a b", "漢", "x'", "½", "{", "\\alpha", "^",
             "Γ", "ℏ", "∂", "→", "a\u00a0b", "&", "<", "N", "z", "Z", "0", "aa", "longer name", "\u00a0", "ı", "ø", "Å"]
    out = []
    for v in [None] + VARIANTS + ODD_VARIANTS:
        a = opt("mathvariant", v)
        for x in texts:
            out.append({"t": "mi", "a": list(a), "x": x, "k": []})
        for x in some(r, texts, 8) + some(r, TABLE_KEYS, n // 15):
            out.append({"t": "mi", "a": list(a), "x": x, "k": []})
            for t in ("mo", "mn"):
                out.append({"t": t, "a": list(a), "x": x, "k": []})
        for g in ("mstyle", "mrow", "math2", "mtd", "mpadded", "msup", "mfrac", "msqrt", "merror"):
            out.append(el(g, [X, mi("N")], *a))
        out.append(mrow(*[{"t": "mi", "a": list(a) if i % 2 else [], "x": "a%d" % i, "k": []} for i in range(4)]))
        out.append(mrow(*[{"t": "mi", "a": opt("mathvariant", w), "x": "N", "k": []} for w in (v, r.choice(VARIANTS), v)]))
        out.append({"t": "mi", "a": list(a) + [("id", "q")], "x": "N", "k": []})
        out.append({"t": "mi", "a": [("class", "q")] + list(a), "x": "N", "k": []})
        out.append({"t": "mi", "a": list(a), "x": "N", "k": [X]})
    for n_ in ("fontstyle", "mathVariant", "Mathvariant", "variant", "fontweight", "class"):
        out += [{"t": "mi", "a": [(n_, v)], "x": "N", "k": []} for v in ("bold", "italic", "script")]
    out += [mi(x, mathvariant=v) for x in some(r, TABLE_KEYS, n) for v in (r.choice(VARIANTS),)]
    return out


def c18(r, n):
    out = []
    alphabet = ["a", "Z", "7", " ", "-", "é", "\u00a0", "α", "漢"]
    words = ["".join(p) for k in range(0, 5) for p in itertools.product(alphabet, repeat=k)]
    words = words[:91] + some(r, words[91:], 3 * n)
    for w in words:
        out.append({"t": "mtext", "a": opt("mathvariant", r.choice([None] * 6 + VARIANTS)), "x": w, "k": []})
    for v in [None] + VARIANTS + ODD_VARIANTS:
        for x in TEXTS:
            out.append({"t": "mtext", "a": opt("mathvariant", v), "x": x, "k": []})
    cs = unicode_chars(r, n * 12) + [g for g in GLYPHS if len(g) == 1]
    r.shuffle(cs)
    for i in range(0, len(cs), 12):
        part = cs[i:i + 12]
        sep = r.choice(["", "a", " ", "b c"])
        out.append({"t": "mtext", "a": opt("mathvariant", r.choice([None, None] + VARIANTS)), "x": sep.join(part), "k": []})
    out += [mtext("".join(chr(c) for c in range(33, 127) if chr(c) not in "")), mtext(" ".join(chr(c) for c in range(33, 127)))]
    out += [mtext(chr(a) + chr(b)) for a, b in some(r, itertools.product(range(33, 127), repeat=2), n)]
    for k in (20, 50, 100, 200, 400, 1000):
        out.append(mtext("".join(r.choice("abc XYZ 019 -,.é") for _ in range(k))))
        out.append(mtext("x" * k)), out.append(mtext("é" * k)), out.append(mtext("a-" * k)), out.append(mtext("a " * k + "b"))
    ws = [c for c in DATA["whitespace"] if ord(c) >= 32 or c in "\t"]
    for c in ws:
        out += [mtext("a" + c + "b"), mtext(c + "a" + c), mtext("a" + c + c + "b"), mtext("-" + c + "-"), mtext("é" + c + "b")]
    out += [{"t": "mtext", "a": [a], "x": "if x-1", "k": []} for a in NOISE_ATTRS]
    out += [{"t": "mtext", "a": [], "x": "a b", "k": [X, Y]}]
    return out


TARGETS = {"C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15,
           "C16": c16, "C17": c17, "C18": c18}

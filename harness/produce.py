"""Producers of observations, one per property: produce(prop, r, n) yields
events; n scales their number."""
import copy, itertools, random

import corpus, damage, gen, targets
from core import event, tree_event
from docs import (T, attr, comment, depth, doc, doctype, elem, instr, junk, math, mi, mn, mo, mrow, mtext, plain, plain_doc,
                  size, text, walk)
from dress import Dress
from gen import CONTEXTS, FOCUS, Gen, in_context
from targets import OPERANDS, el, leaves, some

NAMES = sorted(CONTEXTS)


def seed(r): return r.randrange(1 << 30)


def dressed(r, tree, **kw):
    return Dress(random.Random(seed(r)), **kw).document(tree)


def fresh(t):
    """A copy in which no part occurs twice as the same object."""
    return {"t": t["t"], "a": list(t["a"]), "x": t["x"], "k": [fresh(k) for k in t["k"]]}


def attributed(r, t, a, share):
    """t with an attribute at some of its elements (a share of them; at least one)."""
    t = fresh(t)
    ns = [x for x in walk(t) if all(b[0] != a[0] for b in x["a"])]
    for x in [x for x in ns if r.random() < share] or [r.choice(ns)]:
        x["a"].insert(r.randint(0, len(x["a"])), a)
    return t


def zoo(r, marks=None):
    """A formula with every construct in every position."""
    names = [c for c in NAMES if CONTEXTS[c]]
    r.shuffle(names)
    small = [mi("a"), mn("2"), mi("b"), mrow(mi("b"), mi("c")), mtext("if é"), mi("v", mathvariant="bold"), mi("w", mathvariant="script"), mo("+"),
             T("mfenced", mi("m"), mi("n"), open="|"), T("mover", mi("x"), mo("^")), T("mtable", T("mtr", T("mtd", mi("a")), T("mtd")), T("mtr"))]
    ks = [CONTEXTS[c](r.choice(small)) for c in names] + [el("menclose", [mi("a")], ("notation", v)) for v in r.sample(gen.NOTATIONS, 4)]
    return fresh(math(*ks, el("mspace", []), el("maction", [mi("a"), mi("b")]), el("mlabeledtr", [mi("a"), el("mtd", [mi("b")])])))


ODD_VALUES = ["", " ", "first", "0", "-1", "1.5", "true", "𝔄", "{", "%s", "a b", "1e9", "None", "&"]


def with_attributes(r, ts, share=None):
    """Each of the standard attributes, somewhere in one of the trees; and
    everywhere in a formula with all constructs."""
    for a in gen.STD_ATTRS:
        yield attributed(r, zoo(r), a, 1)
    for a in gen.STD_ATTRS:
        for s in (1, .3) if share is None else (share,):
            yield attributed(r, math(copy.deepcopy(r.choice(ts))) if r.random() < .7 else in_context(r.choice(NAMES), copy.deepcopy(r.choice(ts))), a, s)


def full(prop, r, n):
    """C08-C18: systematic targets, alone and in contexts; random formulas."""
    ts = targets.TARGETS[prop](r, n)
    small = [t for t in ts if 1 < size(t) < 12] or [t for t in ts if size(t) < 12]
    for t in with_attributes(r, small):
        yield tree_event("full", t)
    for t in corpus.TREES:
        yield tree_event("full", copy.deepcopy(t))
    for t in targets.twins(r) + targets.selfnested(r) + targets.siblings(r, 4000 if prop == "C15" else 250):
        yield tree_event("full", t if t["t"] == "math" else math(t))
    for t in ts:
        yield tree_event("full", math(t))
    m = n * 8
    for i in range(m):      # every context many times
        name = NAMES[i % len(NAMES)]
        t = copy.deepcopy(r.choice(ts))
        if size(t) > 60:
            continue
        if r.random() < .3:
            t = CONTEXTS[r.choice([c for c in NAMES if CONTEXTS[c]])](t)
        yield tree_event("full", in_context(name, t))
    focus = FOCUS[prop]
    for i in range(n * 3):
        g = Gen(seed(r), focus, noise=r.choice([0, .1, .3]))
        t = g.formula(r.choice([8, 15, 30, 60]))
        yield tree_event("full", t)
    for i in range(n):
        g = Gen(seed(r), focus)
        t = g.formula(r.choice([8, 15, 30]))
        e = event("full", [dressed(r, t)])
        e["tree"] = t
        yield e
    for d in list(range(2, 26)) + [30, 40, 55, 70]:
        t = math(Gen(seed(r), focus).chain(d))
        if depth(t) <= 80 and not any(len(x["x"]) > 3000 for x in walk(t)):
            yield tree_event("full", t)


FEATURES = [dict(ws=.7, extra=0, refs=0, quotes=0, order=False, selfclose=0),
            dict(ws=0, extra=.5, refs=0, quotes=0, order=False, selfclose=0),
            dict(ws=0, extra=0, refs=.9, quotes=0, order=False, selfclose=0),
            dict(ws=0, extra=0, refs=0, quotes=1, order=True, selfclose=0),
            dict(ws=0, extra=0, refs=0, quotes=0, order=False, selfclose=1),
            dict(ws=.7, extra=.3, refs=.3, quotes=.5), dict(ws=.9, extra=0, refs=0),
            dict(ws=0, extra=0, refs=0, quotes=0, order=False, selfclose=0, entities=1), dict(entities=1)]


def c02(r, n):
    for t in with_attributes(r, OPERANDS, .5):
        yield event("same", [plain_doc(t), dressed(r, t, quotes=.5)])
    for t in corpus.TREES:
        yield event("same", [plain_doc(t)] + [dressed(r, t, **f) for f in r.sample(FEATURES, 3)])
    for i in range(n * 7):
        focus = r.choice(list(FOCUS.values()) + [[]] * 4)
        g = Gen(seed(r), focus, noise=.25)
        t = g.formula(r.choice([4, 8, 15, 30])) if r.random() < .93 else math(g.chain(r.choice([5, 10, 20])))
        ds = [plain_doc(t)]
        fs = r.sample(FEATURES, 2) + ([{}] if r.random() < .5 else [])
        ds += [dressed(r, t, **f) for f in fs]
        yield event("same", ds)
    # every single-token content, written in every way
    tokens = [T(k, x=x) for x in gen.TEXTS + gen.WORDS + gen.OPS + gen.ODD + gen.NUMS for k in gen.TOKENS]
    for t in some(r, tokens, n * 3):
        t = math(t)
        yield event("same", [plain_doc(t)] + [dressed(r, t, **f) for f in FEATURES])
    # contents that look like markup, written in every way and inside attributes
    for x in gen.MARKUPLIKE + ["a" + y + "b" for y in gen.MARKUPLIKE]:
        for k in gen.TOKENS:
            ds = [plain_doc(math(T(k, x=x)))]
            ds.append(doc(elem("math", content=[elem(k, content=[text(x, "ref")])])))
            ds.append(doc(elem("math", content=[elem(k, content=[text(x, "ref", ["&#x%x;" % ord(c) for c in x])])])))
            if "]]>" not in x:
                ds.append(doc(elem("math", content=[elem(k, content=[text(x, "cdata")])])))
            cut = len(x) // 2
            ds.append(doc(elem("math", content=[elem(k, content=[text(x[:cut], "cdata" if "]]>" not in x else "plain"), text(x[cut:])])])))
            yield event("same", ds)
        t = math(T("mfenced", mi("a"), mi("b"), open=x, close="]"), title=x)
        yield event("same", [plain_doc(t)] + [dressed(r, t, quotes=q, order=True) for q in (0, 1)])
    for name in NAMES:
        t = in_context(name, copy.deepcopy(r.choice(OPERANDS)))
        yield event("same", [plain_doc(t)] + [dressed(r, t, **f) for f in FEATURES])
    # explicit splits: one token, every cut, every kind of piece and separator
    for x in ["ab", "a b", "alpha", "12.5", "é=", "<=", "sin", "if x"]:
        for k in gen.TOKENS:
            ds = [plain_doc(math(T(k, x=x)))]
            for cut in range(1, len(x)):
                sep = r.choice([[comment(" c ")], [instr("pi x")], [], [comment(""), instr("a"), comment("b")]])
                a, b = (r.choice([text(s), text(s, "cdata"), text(s, "ref")]) for s in (x[:cut], x[cut:]))
                ds.append(doc(elem("math", content=[elem(k, content=[a] + sep + [b])])))
            for lead, trail in itertools.product(["", " ", "\n", "\r\n  ", "\t"], repeat=2):
                body = ([text(lead)] if lead else []) + [text(x)] + ([text(trail)] if trail else [])
                ds.append(doc(elem("math", content=[elem(k, content=body)])))
            for c in (comment(" x "), instr("pi"), text("", "cdata")):
                for body in ([c, text(x)], [text(x), c], [text("\n"), c, text(x), c, text("\n")]):
                    ds.append(doc(elem("math", content=[elem(k, content=body)])))
            yield event("same", ds)
    # a line break between words
    for x, k in itertools.product(["a b", "if x", "x y z", "1 000"], gen.TOKENS):
        ds = [plain_doc(math(T(k, x=x)))]
        for lb in ("\n", "\r\n", "\r"):
            ds.append(doc(elem("math", content=[elem(k, content=[text(x.replace(" ", lb))])])))
        yield event("same", ds)


WRAPPERS = ["div", "p", "html", "body", "span", "root", "mrow", "td", "semantics", "m", "maths", "xmath", "Math", "formula", "mi",
            "head", "script", "style", "template", "noscript", "pre", "code", "textarea", "svg", "foreignObject", "main", "table", "tr", "li", "a",
            "mtext", "mstyle", "mphantom", "merror", "maction", "annotation", "annotation-xml", "none", "comment", "title", "object", "iframe",
            "mtable", "mtd", "mfrac", "msup", "MATH", "equation", "article", "para", "inlineequation", "disp-formula", "omitted"]


def c03(r, n):
    def around(content, pre):
        """Wrap items in elements and texts that do not belong to formulas."""
        out = []
        for c in content:
            if r.random() < .4:
                out.append(text(r.choice(["some text ", "\n", " and ", "<mi>x</mi>", "<math>", "math", "α", " & "])))
            if r.random() < .25:
                out.append(r.choice([comment(" <math><mi>z</mi></math> "), elem("br", s=True), elem("mi", [attr("math", "math")], [text("y")]),
                                     elem("img", [attr("alt", "<math><mi>z</mi></math>")], s=True), instr("math <mi>z</mi>"),
                                     elem("maths", (), [elem("mi", (), [text("no")])])]))
            for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
                w = r.choice(WRAPPERS)
                c = elem(w, [attr(*r.choice([("class", "x"), ("id", "math"), ("math", "1")] + gen.STD_ATTRS))]
                         if r.random() < .4 else [], [c])
            out.append(c)
        if r.random() < .4:
            out.append(text(r.choice([" end.", "\n\n", "z"])))
        return out
    for i in range(n * 6):
        k = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 8, 13])
        ts = []
        for _ in range(k):
            u = r.random()
            if u < .12:
                ts.append(math())
            elif u < .2:
                ts.append(math(T("mphantom", mi("x"))) if r.random() < .5 else math(mrow(), mi("")))
            elif u < .35 and ts:
                ts.append(copy.deepcopy(r.choice(ts)))
            else:
                ts.append(Gen(seed(r), noise=.1).formula(r.choice([2, 4, 8, 15])))
        prefix = r.choice([0, 0, 0, 1, 1, .5, .2])
        dr = Dress(random.Random(seed(r)), prefix=prefix, ws=r.choice([0, .3]), extra=r.choice([0, .1]),
                   refs=r.choice([0, .2]))
        forms = [dr.element(t) for t in ts]
        if k == 1 and r.random() < .5:
            d = doc(forms[0])
        else:
            d = doc(elem(r.choice(["div", "html", "root", "p", "mrow", "body"]), (), around(forms, prefix)))
        yield event("join", [d] + [plain_doc(t) for t in ts])
    for name in NAMES:      # the prefix on every tag, on some tags
        t = in_context(name, copy.deepcopy(r.choice(OPERANDS)))
        for p in (1, .5):
            d = dressed(r, t, prefix=p, ws=0, extra=0, refs=0)
            if r.random() < .5:
                d["r"]["a"].append(attr("xmlns:mml", "http://www.w3.org/1998/Math/MathML"))
                t = copy.deepcopy(t)
                t["a"].append(("xmlns:mml", "http://www.w3.org/1998/Math/MathML"))
            yield event("join", [d, plain_doc(t)])
    # any wrapper, any attribute, of one formula and of two
    x, y = math(mi("x")), math(T("mfrac", mi("a"), mi("b")))
    for w in WRAPPERS:
        yield event("join", [doc(elem("div", (), [elem(w, (), [plain(x)]), plain(y)])), plain_doc(x), plain_doc(y)])
        yield event("join", [doc(elem(w, (), [plain(x), elem(w, (), [elem(w, (), [plain(y)])])])), plain_doc(x), plain_doc(y)])
    for a in gen.STD_ATTRS:
        w = r.choice(WRAPPERS)
        yield event("join", [doc(elem("div", (), [elem(w, [attr(*a)], [elem("p", (), [plain(x)])]), plain(y)])), plain_doc(x), plain_doc(y)])
        yield event("join", [doc(elem(w, [attr(*a)], [plain(y), elem("br", [attr(*a)], s=True), plain(x)])), plain_doc(y), plain_doc(x)])
        z = copy.deepcopy(y)
        z["a"] = [a]
        yield event("join", [doc(elem(w, (), [plain(z), plain(x), plain(z)])), plain_doc(z), plain_doc(x), plain_doc(z)])
    for k in (17, 40, 101):
        ts = [math(mi("x%d" % i)) for i in range(k)]
        yield event("join", [doc(elem("div", (), [plain(t) for t in ts]))] + [plain_doc(t) for t in ts])
    one = plain(math(mi("x")))
    for d in (10, 40, 80):
        e = one
        for i in range(d):
            e = elem(r.choice(WRAPPERS), (), [e])
        yield event("join", [doc(e), plain_doc(math(mi("x")))])


def c04(r, n):
    for t in corpus.TREES + [t if t["t"] == "math" else math(t) for t in targets.twins(r) + targets.selfnested(r) + targets.siblings(r, 400)]:
        yield tree_event("hygiene", copy.deepcopy(t))
    blanks = [c for c in gen.DATA["whitespace"] if ord(c) >= 32 or c in "\t\n\r"]
    for t in with_attributes(r, OPERANDS, .5):
        yield tree_event("hygiene", t)
    def messy(g, t):
        for x in walk(t):
            if x["t"] in gen.TOKENS and r.random() < .5:
                cs = list(x["x"])
                for _ in range(r.choice([1, 1, 2, 4])):
                    cs.insert(r.randint(0, len(cs)), r.choice(blanks) * r.choice([1, 1, 2, 3]))
                x["x"] = "".join(cs).strip("\t\n\r ")
            for i, (a, v) in enumerate(x["a"]):
                if a in ("open", "close", "separators") and r.random() < .5:
                    x["a"][i] = (a, (v + r.choice([" ", "\u00a0", "  ", "\u2003", "\u2028"]) if r.random() < .5 else " " + v))
        return t
    for i in range(n * 10):
        g = Gen(seed(r), r.choice([[], [], ["mtable", "mfenced"], ["mtext"], ["mphantom", "mrow", "unknown"], ["mfenced"]]))
        t = g.formula(r.choice([3, 8, 15, 30, 60]))
        if r.random() < .7:
            t = messy(g, t)
        yield event("hygiene", [dressed(r, t) if r.random() < .4 else plain_doc(t)])
    for k in gen.TABLE_KEYS:
        yield tree_event("hygiene", math(T(r.choice(["mi", "mo", "mn", "mtext"]), x=k)))
    for o in OPERANDS:
        for name in some(r, NAMES, 8):
            yield tree_event("hygiene", in_context(name, copy.deepcopy(o)))
    for b in blanks:
        for k in gen.TOKENS:
            for x in (b, "a" + b, b + "a", "a" + b + "b", "a" + b + b + "b", "-" + b, b + b, "é" + b + "é"):
                d = doc(elem("math", content=[elem(k, content=[text(x, "ref")])]))
                d2 = doc(elem("math", content=[elem("mi", content=[text("p")]), elem(k, content=[text(x)]), elem("mn", content=[text("1")])]))
                yield event("hygiene", [d, d2])
        for a in ("open", "close", "separators"):
            for v in (b, "(" + b, b + b, b + ","):
                yield event("hygiene", [doc(elem("math", content=[elem("mfenced", [attr(a, v)], [plain(mi("x")), plain(mi("y"))])]))])
        yield event("hygiene", [doc(elem("math", content=[elem("mtext", [attr("mathvariant", "bold")], [text("a" + b + "-" + b + "c")])]))])
    empties = [mi(""), T("mspace"), mrow(), T("mphantom", mi("x")), mtext(""), mo("\u00a0"), mo(" ")]
    for w in range(0, 6):
        for _ in range(n // 3):
            ks = [copy.deepcopy(r.choice(empties + [mi("a"), mn("1")])) for _ in range(w)]
            t = r.choice(["mrow", "msqrt", "mfenced", "mtr", "mtable", "merror", "menclose", "maction", "mstyle", "math"])
            yield tree_event("hygiene", math(*ks) if t == "math" else math(el(t, ks)))
    for ts in ([], [math()], [math(), math()], [math(mi("x")), math()], [math(), math(mi("x"))], [math(mi("")), math(mi("a")), math()]):
        yield event("hygiene", [doc(elem("div", (), [text(" \n ")] + [plain(t) for t in ts] + [text(" ")]))])


COUNTS = {"mfrac": 2, "mroot": 2, "msup": 2, "msub": 2, "munder": 2, "mover": 2, "msubsup": 3, "munderover": 3}


def c05(r, n):
    def faulty(t, k):
        return el(t, leaves(k, r))
    for t in with_attributes(r, [faulty(t, k) for t, c in list(COUNTS.items()) + [("mmultiscripts", 3)] for k in (c - 1, c, c + 1)]):
        yield tree_event("arity", t)
    for t in corpus.TREES:
        yield tree_event("arity", copy.deepcopy(t))
        for _ in range(3):
            u = copy.deepcopy(t)
            ns = [x for x in walk(u) if x["t"] in COUNTS or x["t"] == "mmultiscripts"]
            if ns:
                x = r.choice(ns)
                if r.random() < .5:
                    x["k"].pop(r.randrange(len(x["k"])))
                else:
                    x["k"].insert(r.randint(0, len(x["k"])), r.choice([mi("w"), T("mspace"), mrow()]))
                yield tree_event("arity", u)
    space = [(t, k) for t in list(COUNTS) + ["mmultiscripts"] for k in (0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 21)]
    for t, k in space:
        yield tree_event("arity", math(faulty(t, k)))
        for name in NAMES if k < 6 else some(r, NAMES, 4):
            yield tree_event("arity", in_context(name, faulty(t, k)))
        f = faulty(t, k)
        f["x"] = "text"
        f["a"] = [r.choice(gen.NOISE_ATTRS)]
        yield event("arity", [dressed(r, math(f), extra=.5)])
        f = el(t, [copy.deepcopy(r.choice(OPERANDS)) for _ in range(k)])
        yield event("arity", [dressed(r, math(mrow(f)))])
        # empty children count, too
        yield tree_event("arity", math(el(t, [r.choice([mrow(), T("none"), T("mspace"), T("mphantom", mi("x")), mi("")]) for _ in range(k)])))
        yield tree_event("arity", math(el(t, [r.choice([mrow(), T("mprescripts"), mi("a"), T("mtable")]) for _ in range(k)])))
    # two or more faulty elements: the first in conversion order counts
    for _ in range(n * 6):
        g = Gen(seed(r), list(COUNTS) + ["mmultiscripts", "mphantom", "maction"], noise=.05)
        t = g.formula(r.choice([6, 12, 25, 40]))
        ns = [x for x in walk(t) if x["t"] in COUNTS or x["t"] == "mmultiscripts"]
        for x in r.sample(ns, min(len(ns), r.choice([0, 1, 1, 2, 3]))):
            u = r.random()
            if u < .4 and x["k"]:
                x["k"].pop(r.randrange(len(x["k"])))
            elif u < .8:
                x["k"].insert(r.randint(0, len(x["k"])), g.leaf())
            else:
                x["k"] = []
        yield (event("arity", [dressed(r, t)]) if r.random() < .3 else tree_event("arity", t))
    for _ in range(n):
        bad = [faulty(*r.choice(space)) for _ in range(2)]
        hide = r.choice([lambda x: T("mphantom", x), lambda x: el("maction", [mi("a"), x], ("actiontype", "tooltip")),
                         lambda x: el("maction", [x, mi("a")], ("actiontype", "tooltip")),
                         lambda x: el("maction", [mi("a"), x]), lambda x: {"t": "mi", "a": [], "x": "a", "k": [x]},
                         lambda x: T("mmultiscripts", mi("a"), mi("b"), mi("c"), x, mi("d")),
                         lambda x: T("mmultiscripts", mi("a"), T("mprescripts"), mi("b"), mi("c"), x),
                         lambda x: T("mmultiscripts", mi("a"), mi("b"), mi("c"), T("mprescripts"), x, mi("d")),
                         lambda x: T("mmultiscripts", mi("a"), mi("b"), mi("c"), T("mprescripts"), x),
                         lambda x: T("mfrac", T("mfrac", mi("z")), x), lambda x: T("mtable", T("mtr", T("mtd", mi("a")), T("mtd", x)))])
        yield tree_event("arity", math(hide(bad[0])))
        yield tree_event("arity", math(mrow(hide(bad[0]), bad[1])))
        yield tree_event("arity", math(T("mroot", bad[0], bad[1])))
        yield tree_event("arity", math(T("mmultiscripts", bad[0], bad[1], mi("x"), T("mprescripts"), mi("a"), bad[1])))
    # several formulas: any faulty one makes the conversion fail
    for _ in range(n):
        ts = [math(mi("x"))] * r.randint(0, 2) + [math(faulty(*r.choice(space)))] + [math(mi("y"))] * r.randint(0, 2)
        if r.random() < .3:
            ts.append(math(faulty(*r.choice(space))))
        yield event("arity", [doc(elem("div", (), [plain(t) for t in ts]))])
    # same names that are no such elements
    for t in ("mfracs", "Msup", "MFRAC", "msu", "munderovers", "msup2", "frac", "mmultiscript", "mstyle", "munde"):
        for k in range(0, 5):
            yield tree_event("arity", math(el(t, leaves(k, r))))


def c07(r, n):
    for t in corpus.TREES + [t if t["t"] == "math" else math(t) for t in targets.twins(r) + targets.selfnested(r) + targets.siblings(r, 400)]:
        yield tree_event("total", copy.deepcopy(t))
    for t in with_attributes(r, OPERANDS, .5):
        yield tree_event("total", t)
    for i in range(n * 8):
        g = Gen(seed(r), noise=r.choice([.1, .4, .6]))
        t = g.formula(r.choice([5, 15, 40, 80]))
        yield event("total", [dressed(r, t) if r.random() < .6 else plain_doc(t)])
    for a in sorted({a for a, _ in gen.STD_ATTRS + gen.NOISE_ATTRS if ":" not in a and a != "xmlns"} | {"name", "tag", "text"}):
        for v in some(r, ODD_VALUES, 7):
            yield tree_event("total", attributed(r, zoo(r), (a, v), 1))
    # every construct nested in itself 80 deep, in every position; mixtures
    for name in NAMES:
        f = CONTEXTS[name]
        if f is None or name in ("math", "twice"):
            continue
        t = mi("x")
        while True:
            u = f(copy.deepcopy(t)) if name != "twice" else f(t)
            if depth(u) > 79:
                break
            t = u
        yield tree_event("total", math(t))
    for _ in range(max(10, n // 6)):
        t = mi("x")
        while True:
            u = CONTEXTS[r.choice([c for c in NAMES if CONTEXTS[c] and c != "twice"])](t)
            if depth(u) > 79:
                break
            t = u
        yield tree_event("total", math(t))
    # odd contents for every element
    tags = list(COUNTS) + ["mmultiscripts", "msqrt", "mfenced", "mtable", "mtr", "menclose", "merror", "mphantom", "maction",
                           "mi", "mo", "mn", "mtext", "mrow", "math"] + gen.UNKNOWN
    atts = ["mathvariant", "open", "close", "separators", "notation", "bevelled", "actiontype", "innerTable"]
    vals = ["", " ", "0", "true", "None", "𝔄", "{", "\\", "%s", "a" * 300, "&", "\u00a0", "toggle", "[", "(?", "{0}"]
    for t in tags:
        need = COUNTS.get(t, 3 if t == "mmultiscripts" else 0)
        for k in {need, 0 if need == 0 else need, need + (0 if t in COUNTS else 1), need + (0 if t in COUNTS else 7)}:
            ks = [copy.deepcopy(r.choice(OPERANDS)) for _ in range(k)]
            x = el(t, ks)
            yield tree_event("total", x if t == "math" else math(x))
            y = el(t, ks, (r.choice(atts), r.choice(vals)))
            y["x"] = r.choice(["", "text", "α", "0"])
            yield tree_event("total", y if t == "math" else math(y))
            z = el(t, [el(r.choice(["none", "mprescripts", "mspace", "foo", "mphantom", "mtr", "mtd", "mi"]), []) for _ in range(k)])
            z["x"] = r.choice(["", "text", "0"])
            yield tree_event("total", z if t == "math" else math(z))
        for a in atts:
            v = r.choice(vals)
            yield tree_event("total", math(el(t, [copy.deepcopy(r.choice(OPERANDS)) for _ in range(need)], (a, v))) if t != "math" else math(mi("x"), **{a: v}))
    for t, a in itertools.product(["mi", "mtext", "mo", "mn", "mfenced", "menclose", "maction", "mfrac", "mtable"], atts):
        for v in some(r, vals, 6):
            ks = [mi("x")] * (2 if t == "mfrac" else 1 if t.startswith("m") and t not in gen.TOKENS else 0)
            e = el(t, ks, (a, v))
            e["x"] = "x" if t in gen.TOKENS else ""
            yield tree_event("total", math(e))
    # any character as content of any token
    cs = targets.unicode_chars(r, n * 10) + [c for c in gen.DATA["whitespace"] if ord(c) >= 32]
    for i in range(0, len(cs), 8):
        yield tree_event("total", math(*[T(t, x=c) for c in cs[i:i + 8] for t in gen.TOKENS]))
    # wide and long
    for w in (50, 200, 1000):
        for t in ("mrow", "msqrt", "mfenced", "mtr", "mtable", "menclose", "maction", "mmultiscripts", "mtd", "math"):
            yield tree_event("total", math(*leaves(w)) if t == "math" else math(el(t, leaves(w))))
    for k in (500, 5000):
        for t in gen.TOKENS:
            yield tree_event("total", math(T(t, x="".join(r.choice("ab 1-é") for _ in range(k)).strip())))
    for x in gen.ODD + gen.TEXTS + gen.OPS + gen.NUMS:
        yield event("total", [dressed(r, math(*[T(t, x=x.strip(" \t")) for t in gen.TOKENS]))])
    for t in some(r, OPERANDS, 20):
        t = math(fresh(t))
        t["a"].append(("xmlns:xlink", "http://www.w3.org/1999/xlink"))
        r.choice(list(walk(t)))["a"].append(("xlink:href", "#a"))
        yield tree_event("total", t)
    yield event("total", [doc(plain(math(mi("x"))), [doctype("math [<!ELEMENT math ANY><!ELEMENT math ANY>]")])])     # (listed)
    yield event("total", [doc(elem("a", s=True))])
    yield event("total", [doc(elem("math", s=True))])
    yield event("total", [doc(elem("math", [attr("xmlns", "http://www.w3.org/1998/Math/MathML")], [text("only text")]))])


def c19(r, n):
    def tame(t):
        for x in walk(t):
            if x["t"] in gen.TOKENS:
                x["x"] = "".join(c for c in x["x"] if c not in "{}\\")
            x["a"] = [(a, "".join(c for c in v if c not in "{}\\") if a in ("open", "close", "separators") else v) for a, v in x["a"]]
        return t
    for t in corpus.TREES + [t if t["t"] == "math" else math(t) for t in targets.twins(r) + targets.selfnested(r) + targets.siblings(r, 400)]:
        yield tree_event("balance", tame(copy.deepcopy(t)))
    tables = [T("mtable"), T("mtable", T("mtr")), T("mtable", T("mtr", T("mtd", mi("a"))), T("mtr")), T("mtable", T("mtr"), T("mtr")),
              T("mtable", T("mtr", T("mtd", mi("a")), T("mtd"))), T("mtable", T("mtr", T("mtd", T("mtable", T("mtr", T("mtd", mi("a"))), T("mtr")))))]
    fences = [(o, c) for o, c in itertools.product(gen.FENCES, repeat=2) if not set((o or "") + (c or "")) & set("{}\\")]
    for t in tables:
        for o, c in [("|", "|"), ("||", "||"), ("(", ")"), ("[", "]"), ("{", "}"), ("", ""), ("<", ">")] + some(r, fences, 25):
            for ks in ([t], [t, mi("x")], [mi("x"), t, T("mtable", T("mtr", T("mtd", mo(";"))))]):
                e = el("mfenced", ks, *[("open", o)] * (o is not None), *[("close", c)] * (c is not None))
                yield tree_event("balance", math(e if r.random() < .5 else T("mrow", e, copy.deepcopy(e))))
    texts = ["", " ", "\u00a0", "a", "a b", "-", "a-b", "- -", "é é", "é\u00a0é", "\u00a0-", "a -", "- a", "--", "é", "éa é", "\u00a0a\u00a0", "漢 字", "1", "½ ½"]
    for v, x in itertools.product([None] + gen.VARIANTS + ["normal", "x"], texts):
        yield tree_event("balance", math(*[T(k, x=x, **({"mathvariant": v} if v else {})) for k in ("mtext", "mi", "mo")]))
    for i in range(n * 8):
        g = Gen(seed(r), r.choice([[], [], ["mtable", "mfenced"], ["menclose", "mfenced"], ["mtext", "mi"], ["mmultiscripts"]]), tame=True)
        t = tame(g.formula(r.choice([5, 15, 30, 60])))
        yield tree_event("balance", t)
    for t in with_attributes(r, [t for t in OPERANDS if size(t) > 1], .5):
        yield tree_event("balance", tame(t))
    for k in gen.TABLE_KEYS:
        if not set(k) & set("{}\\"):
            yield tree_event("balance", math(mrow(mi(k), mo(k), mn(k), mtext(k))))
    for p in ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18"):
        ts = [t for t in targets.TARGETS[p](r, max(40, n // 3)) if size(t) < 60]
        for t in some(r, ts, n):
            t = tame(copy.deepcopy(t))
            yield tree_event("balance", math(t) if r.random() < .5 else in_context(r.choice(NAMES), t))
    for d in (5, 10, 20, 40):
        for _ in range(4):
            yield tree_event("balance", math(tame(Gen(seed(r), tame=True).chain(d))))


def remark(r, t, g):
    """Replace all token texts by marks (and attributes that would add some)."""
    for x in walk(t):
        if x["t"] in gen.TOKENS:
            x["x"] = g.mark() if x["x"] or r.random() < .5 else ""
        x["a"] = [(a, v) for a, v in x["a"] if a not in ("open", "close", "separators") or not set(v) & MARKS]
    return t


MARKS = set("0123456789ACDEFGHIJKMNOPQRSTUWXYZ")


def c20(r, n):
    for t in corpus.TREES + [t if t["t"] == "math" else math(t) for t in targets.twins(r) + targets.selfnested(r) + targets.siblings(r, 400)]:
        yield tree_event("marks", remark(r, copy.deepcopy(t), Gen(seed(r), marks=True)))
    for t in corpus.TREES:
        yield tree_event("leaves", copy.deepcopy(t))
    for t in with_attributes(r, [t for t in OPERANDS if size(t) > 1], .5):
        yield tree_event("marks", remark(r, t, Gen(seed(r), marks=True)))
    for i in range(n * 8):
        g = Gen(seed(r), r.choice(list(FOCUS.values()) + [[]] * 6), marks=True)
        t = g.formula(r.choice([5, 15, 30, 60]))
        yield tree_event("marks", remark(r, t, g))
    for p in ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18"):
        ts = [t for t in targets.TARGETS[p](r, max(40, n // 3)) if size(t) < 150]
        for t in some(r, ts, n):
            g = Gen(seed(r), marks=True)
            t = copy.deepcopy(t)
            yield tree_event("marks", remark(r, math(t) if r.random() < .5 else in_context(r.choice(NAMES), t), g))
        for t in some(r, ts, n // 2):
            yield tree_event("leaves", math(copy.deepcopy(t)))
    for name in NAMES:
        for o in some(r, OPERANDS, 6):
            g = Gen(seed(r), marks=True)
            yield tree_event("marks", remark(r, in_context(name, copy.deepcopy(o)), g))
    for w in targets.widths(r):
        for t in ("mrow", "msqrt", "mfenced", "mtr", "mtable", "menclose", "maction", "merror", "mtd", "foo", "math", "mmultiscripts"):
            if t == "mmultiscripts" and w < 3:
                continue
            ks = [mi("Q%d" % i) if r.random() < .7 else mi("A") for i in range(w)]
            yield tree_event("marks", math(*ks) if t == "math" else math(el(t, ks)))
            same = [r.choice([mi("A"), mn("7")])] * w
            yield tree_event("marks", math(*same) if t == "math" else math(el(t, same)))
    for i in range(n * 3):
        g = Gen(seed(r), r.choice(list(FOCUS.values()) + [[]] * 6))
        yield tree_event("leaves", g.formula(r.choice([5, 10, 20])))
    for x in gen.ODD + gen.TEXTS + gen.OPS + gen.NUMS + gen.WORDS + some(r, gen.TABLE_KEYS, n * 2):
        yield tree_event("leaves", math(mi("p"), T(r.choice(gen.TOKENS), x=x.strip(" \t")), mn("5")))
    for d in (5, 10, 20, 40, 60):
        for _ in range(3):
            g = Gen(seed(r), marks=True)
            yield tree_event("marks", remark(r, math(g.chain(d)), g))
    for k in (2, 5, 9):     # several formulas
        for _ in range(n // 8):
            g = Gen(seed(r), marks=True)
            ts = [remark(r, g.formula(8), g) for _ in range(k)]
            yield event("marks", [doc(elem("div", (), [plain(t) for t in ts]))])


def c21(r, n):
    def paths(t):
        out = []
        def go(x, p):
            for i, c in enumerate(x["k"]):
                if x["t"] in gen.TOKENS or x["t"] == "mphantom":
                    continue
                out.append((p + [i + 1], c))
                go(c, p + [i + 1])
        go(t, [])
        return out
    def replaced(t, path):
        t = copy.deepcopy(t)
        x = t
        for i in path[:-1]:
            x = x["k"][i - 1]
        x["k"][path[-1] - 1] = mi("QZ")
        return t
    def plug(t, path, sub):
        return event("plug", [plain_doc(t), plain_doc(replaced(t, path)), plain_doc(math(copy.deepcopy(sub)))], path=path)
    def clean(t):
        for x in walk(t):
            x["x"] = x["x"].replace("Q", "K").replace("Z", "K")
            x["a"] = [(a, v.replace("Q", "K").replace("Z", "K")) for a, v in x["a"]]
        return t
    def some_plugs(t, k):
        t = clean(t)
        ps = [(p, c) for p, c in paths(t) if not any(x["t"] == "mtable" for x in walk(c))]
        for p, c in r.sample(ps, min(k, len(ps))):
            yield plug(t, p, c)
    for t in corpus.TREES:
        yield from some_plugs(copy.deepcopy(t), 8)
    for t in targets.siblings(r, n * 3) + targets.selfnested(r):
        yield from some_plugs(copy.deepcopy(t) if t["t"] == "math" else math(t), 2)
    # rows that begin like a number, a function, a fence
    for a in corpus.SIBLINGS:
        for b in some(r, corpus.SIBLINGS, 6) + [mn("1"), mi("x")]:
            t = clean(math(mrow(a, b)))
            yield plug(t, [1, 2], t["k"][0]["k"][1])
    for a in gen.STD_ATTRS:     # an attribute further up, or everywhere
        yield from some_plugs(attributed(r, zoo(r), a, 1), 2)
        t = in_context(r.choice([c for c in NAMES if c not in ("math", "twice")]), copy.deepcopy(r.choice(OPERANDS[25:])))
        t = attributed(r, t, a, r.choice([0, .3, 1]))
        yield from some_plugs(t, 3)
    for i in range(n * 4):
        g = Gen(seed(r), r.choice(list(FOCUS.values()) + [[]] * 8), noise=.1)
        yield from some_plugs(g.formula(r.choice([6, 12, 25, 40])), 3)
    # every construct in every context
    for name in NAMES:
        if name in ("math", "math-first", "math-last", "twice"):
            continue
        for o in some(r, OPERANDS, 12 if n < 400 else 40):
            t = clean(in_context(name, copy.deepcopy(o)))
            for p, c in paths(t):
                if c == clean(copy.deepcopy(o)):
                    yield plug(t, p, c)
                    break
    for p in ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"):
        ts = [t for t in targets.TARGETS[p](r, max(40, n // 4)) if size(t) < 60]
        for t in some(r, ts, n // 2):
            t = copy.deepcopy(t)
            k = r.choice([c for c in NAMES if c not in ("math", "twice")])
            yield from some_plugs(in_context(k, t), 2)
    for d in list(range(2, 30)) + [40, 55, 70]:
        t = clean(math(Gen(seed(r)).chain(d)))
        if depth(t) > 80:
            continue
        ps = [(p, c) for p, c in paths(t) if not any(x["t"] == "mtable" for x in walk(c))]
        ps.sort(key=lambda q: -len(q[0]))
        for p, c in ps[:2] + r.sample(ps, min(2, len(ps))):
            yield plug(t, p, c)
    for w in (5, 9, 17, 33, 65):
        for t in ("mrow", "msqrt", "mfenced", "mtr", "mtable", "menclose", "maction", "merror", "mtd", "foo"):
            ks = leaves(w, r)
            i = r.randrange(w)
            ks[i] = copy.deepcopy(r.choice(OPERANDS[:40]))
            x = clean(math(el(t, ks)))
            yield plug(x, [1, i + 1], x["k"][0]["k"][i])


MEANINGFUL = {"mi": {"mathvariant"}, "mtext": {"mathvariant"}, "mfenced": {"open", "close", "separators"}, "menclose": {"notation"},
              "mfrac": {"bevelled"}, "maction": {"actiontype"}}
VALUED = [("mathvariant", v) for v in gen.VARIANTS + ["normal"]] + [(a, v) for a in ("open", "close") for v in ("[", "|", "{", "<", "")] \
    + [("separators", v) for v in (";", ",;", "")] + [("notation", v) for v in gen.NOTATIONS if v] \
    + [("bevelled", v) for v in ("true", "false", "")] + [("actiontype", v) for v in ("toggle", "statusline", "tooltip", "")]


def note(n, a):
    """Add an attribute to a node, if it means nothing there."""
    if a[0] not in MEANINGFUL.get(n["t"], ()) and all(b[0] != a[0] for b in n["a"]):
        n["a"].insert(0 if len(a[1]) % 2 else len(n["a"]), a)


def noted(r, t, a, share=1):
    t = fresh(t)
    for x in walk(t):
        if r.random() < share:
            note(x, a)
    return t


def noted_text(r, t, x, share=1):
    t = fresh(t)
    for n in walk(t):
        if n["t"] not in gen.TOKENS and r.random() < share:
            n["x"] = x
    return t


def c22(r, n):
    names = sorted({a for a, _ in gen.STD_ATTRS + gen.NOISE_ATTRS + VALUED if ":" not in a and a != "xmlns"})
    values = [v for _, v in gen.STD_ATTRS + VALUED] + ODD_VALUES + gen.OPS + gen.NUMS + gen.WORDS
    stray = gen.WORDS + gen.TEXTS + gen.OPS + gen.NUMS + gen.ODD + gen.MARKUPLIKE

    def noisy(t, much):
        t = fresh(t)
        for x in walk(t):
            while r.random() < much:
                note(x, r.choice(gen.STD_ATTRS + VALUED) if r.random() < .7 else (r.choice(names), r.choice(values)))
            if x["t"] not in gen.TOKENS and r.random() < much / 2:
                x["x"] = r.choice(stray).strip(" \t")
        return t

    def event_of(t, *us):
        return event("essence", [plain_doc(t)] + [plain_doc(u) for u in us])
    bare = [math(fresh(t)) for t in OPERANDS] + [in_context(c, copy.deepcopy(r.choice(OPERANDS))) for c in NAMES for _ in range(2)]
    for a in gen.STD_ATTRS + VALUED:
        z = zoo(r)
        yield event_of(z, noted(r, z, a))
        t = r.choice(bare)
        yield event_of(t, noted(r, t, a), noted(r, t, a, .4))
    for a in names:
        z = zoo(r)
        yield event_of(z, *[noted(r, z, (a, v), s) for v, s in zip(r.sample(values, 3), (1, .3, .1))])
    for x in stray:
        x = x.strip(" \t")
        t = zoo(r)
        u = r.choice(bare)
        yield event_of(u, noted_text(r, u, x), noted_text(r, u, x, .3))
        if r.random() < .25:
            yield event_of(t, noted_text(r, t, x, r.choice([1, .3])))
    # every element, every attribute that means something elsewhere
    for t in [t for t in bare if 2 < size(t) < 12]:
        ns = len(list(walk(t)))
        for a in some(r, VALUED, 12) + some(r, gen.STD_ATTRS, 12):
            u = fresh(t)
            note(list(walk(u))[r.randrange(ns)], a)
            yield event_of(t, u)
    for t in corpus.TREES:
        t = copy.deepcopy(t)
        yield event_of(t, noisy(t, .3), noisy(t, .6), noted(r, t, r.choice(VALUED)), noted(r, t, r.choice(gen.STD_ATTRS)))
    for i in range(n * 8):
        g = Gen(seed(r), r.choice(list(FOCUS.values()) + [[]] * 6), noise=r.choice([0, 0, .2]))
        t = g.formula(r.choice([4, 8, 15, 30]))
        if r.random() < .15:        # failing conversions fail alike
            ns = [x for x in walk(t) if x["t"] in COUNTS]
            if ns:
                r.choice(ns)["k"].append(mi("w"))
        us = [noisy(t, r.choice([.1, .3, .6])) for _ in range(2)]
        ds = [plain_doc(t)] + [plain_doc(u) for u in us]
        if r.random() < .3:
            ds.append(dressed(r, us[0]))
        yield event("essence", ds)
    for p in ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"):
        ts = [t for t in targets.TARGETS[p](r, max(40, n // 4)) if size(t) < 40]
        for t in some(r, ts, n):
            t = math(fresh(t)) if r.random() < .5 else in_context(r.choice(NAMES), copy.deepcopy(t))
            yield event_of(t, noisy(t, r.choice([.2, .6])), noted(r, t, r.choice(VALUED), r.choice([1, .3])))
    for t in targets.twins(r) + targets.selfnested(r) + targets.siblings(r, 300):
        t = t if t["t"] == "math" else math(t)
        yield event_of(t, noisy(t, .3), noted(r, t, r.choice(VALUED + gen.STD_ATTRS), r.choice([1, .2])))
    for d in (5, 10, 20, 40, 70):
        for _ in range(3):
            t = math(Gen(seed(r)).chain(d))
            if depth(t) <= 80:
                yield event_of(t, noisy(t, .3), noted(r, t, r.choice(VALUED)))


LETTERS = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ\\")


def c23(r, n):
    def wordless(t):
        t = fresh(t)
        for x in walk(t):
            if x["t"] in gen.TOKENS:
                x["x"] = x["x"].replace("\\", "")
            if x["t"] == "mfenced":
                x["a"] = [(a, "".join(c for c in v if c not in LETTERS) if a in ("open", "close", "separators") else v) for a, v in x["a"]]
        return t

    def greek(t, share):
        """Let tokens be ones whose LaTeX is a command, next to letters."""
        t = fresh(t)
        for x in walk(t):
            if x["t"] in gen.TOKENS and r.random() < share:
                x["x"] = r.choice(gen.GLYPHS if r.random() < .5 else ["α", "→", "∞", "β", "≤", "×", "ℝ", "é", "½", "sin", "lim"])
        return wordless(t)
    ends = [mi("α"), mo("→"), mi("x"), mn("1"), mtext("αb"), mi("sin"), mi("é"), mtext("if"), mo("≤"), mo("("), mi("∞", mathvariant="bold"), T("mspace")]
    for a, b in itertools.product(ends, repeat=2):
        for t in ("mrow", "msqrt", "mfenced", "mtr", "mtable", "menclose", "merror", "maction", "foo", "mfrac", "msup", "mroot", "mover", "munder"):
            yield tree_event("commands", math(fresh(el(t, [a, b]))))
        yield tree_event("commands", math(fresh(a), fresh(b)))
        yield tree_event("commands", math(fresh(el("mfrac", [a, b], ("bevelled", "true")))))
        yield tree_event("commands", math(fresh(el("mfenced", [a, b, a], ("separators", r.choice([" ", "", ";", "| "])), ("open", r.choice(["", "|", "."]))))))
        for v in gen.NOTATIONS:
            yield tree_event("commands", math(fresh(el("menclose", [a, b], ("notation", v)))))
    for a in ends:
        for name in NAMES:
            yield tree_event("commands", in_context(name, fresh(a)))
            b, c = r.choice([c for c in NAMES if CONTEXTS[c]]), r.choice(NAMES)
            yield tree_event("commands", in_context(c, CONTEXTS[b](fresh(a))))
    for v in [None] + gen.VARIANTS + ["normal"]:
        for x in ("α", "αβ", "a", "αb", "a α", "→x", "éa", "½α", "ℝ", "α b", "sin", "x→", "∞∞", "漢α漢", "aα1"):
            yield tree_event("commands", math(*[T(k, x=x, **({"mathvariant": v} if v else {})) for k in gen.TOKENS]))
    for i in range(n * 3):
        x = "".join(r.choice(gen.GLYPHS + ["a", "b", " ", "1"] * 300) for _ in range(r.choice([2, 3, 5, 9]))).strip()
        yield tree_event("commands", math(wordless(T("mtext", x=x)), mi("z")))
    for t in corpus.TREES + [t if t["t"] == "math" else math(t) for t in targets.twins(r) + targets.selfnested(r) + targets.siblings(r, 400)]:
        yield tree_event("commands", wordless(t))
        yield tree_event("commands", greek(t, .6))
    for t in with_attributes(r, [t for t in OPERANDS if size(t) > 1], .5):
        yield tree_event("commands", greek(t, r.choice([0, .5])))
    for k in gen.TABLE_KEYS:
        if "\\" not in k:
            yield tree_event("commands", math(T("mrow", mi(k), mi("x"), mo(k), mn("1"), mn(k), mi("y"), mtext(k), mtext("a" + k + "b"))))
    for p in ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18"):
        ts = [t for t in targets.TARGETS[p](r, max(40, n // 3)) if size(t) < 60]
        for t in some(r, ts, n):
            t = greek(t, r.choice([0, .4, 1]))
            yield tree_event("commands", math(t) if r.random() < .5 else in_context(r.choice(NAMES), t))
    for i in range(n * 8):
        g = Gen(seed(r), r.choice(list(FOCUS.values()) + [[]] * 6))
        yield tree_event("commands", greek(g.formula(r.choice([5, 15, 30, 60])), r.choice([0, .3, .8])))
    for d in (5, 10, 20, 40, 60):
        for _ in range(4):
            yield tree_event("commands", greek(math(Gen(seed(r)).chain(d)), .5))


def produce(prop, r, n):
    if prop in targets.TARGETS:
        return full(prop, r, n)
    if prop in ("C24", "C25", "C26", "C27"):
        import laws
        return laws.PRODUCE[prop](r, n)
    return {"C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": damage.c06, "C07": c07, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23}[prop](r, n)

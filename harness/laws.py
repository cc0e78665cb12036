"""Producers for C24 (effort), C25 (grouping), C26 (delimiters),
C27 (scripts)."""
import copy, itertools

import corpus, damage, gen, targets
from core import event, tree_event
from docs import T, attr, comment, depth, doc, elem, instr, math, mi, mn, mo, mrow, mtext, plain, plain_doc, raw, size, text, walk
from gen import CONTEXTS, FOCUS, Gen, in_context
from produce import COUNTS, NAMES, OPERANDS, VALUED, attributed, dressed, fresh, note, seed, with_attributes, zoo
from targets import el, leaves, some

ALL = ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18")


# --- C24 -------------------------------------------------------------------------
def deep(f, d, x=None):
    t = x or mi("x")
    for i in range(d):
        u = f(t)
        if depth(u) > 79:
            break
        t = u
    return t


def c24(r, n):
    def series(*docs):
        return event("effort", [d if "b" in d or "raw" in d else plain_doc(d) for d in docs])
    names = [c for c in NAMES if CONTEXTS[c] and c not in ("math", "twice")]

    def grown(f, x=None, top=70):
        """f in itself, deeper and deeper."""
        one = depth(f(mi("x"))) - 1
        ds = [d for d in (1, 2, 4, 8, 16, 32, 64) if d * one <= top]
        return [math(fresh(deep(f, d, x))) for d in ds]

    empties = [T("mspace"), mrow(), T("mphantom", mi("x")), mi(""), T("mtable"), T("mfenced"), T("maction")]
    hearts = empties + [mo("^"), mo("("), mn("12"), mtext("if é"), T("mtable", T("mtr", T("mtd", mi("a")))), T("mfenced", mi("a"), mi("b")), mi("v", mathvariant="bold"),
                        T("mfrac", mi("a"), mi("b"), bevelled="true"), mrow(mi("a"), mi("b"))]

    def longer(t):
        """A series whose documents double in size (short ones are left out)."""
        out = []
        for d in t:
            n = len(damage.write_doc(d if "b" in d or "raw" in d else plain_doc(d)))
            if not out or n > out[-1][0] * 1.3:
                out.append((n, d))
        return [d for _, d in out if _ > 60]
    for c in names:
        yield series(*longer(grown(CONTEXTS[c])))
        yield series(*longer(grown(CONTEXTS[c], r.choice(OPERANDS))))
        yield series(*longer(grown(CONTEXTS[c], r.choice(empties))))
        yield series(*longer(grown(CONTEXTS[c], r.choice(hearts))))
    for _ in range(n):
        a, b = r.choice(names), r.choice(names)
        yield series(*longer(grown(lambda t: CONTEXTS[a](CONTEXTS[b](t)), r.choice(hearts + [mi("x")] * 9))))
        mix = [r.choice(names) for _ in range(r.choice([3, 4, 6]))]
        def f(t):
            for c in mix:
                t = CONTEXTS[c](t)
            return t
        yield series(*longer(grown(f, r.choice(hearts + [mi("x")] * 9))))
    for g in [el("mfrac", [mi("a"), mi("b")]), mrow(mi("a"), mi("b")), mo("^"), T("mtable", T("mtr", T("mtd", mi("a"))))]:
        for tag in ("mfrac", "mroot", "msup", "msub", "munder", "mover", "msubsup", "munderover", "mmultiscripts", "mfenced", "mrow", "mtable"):
            k = COUNTS.get(tag, 3)
            for i in range(k):
                yield series(*longer(grown(lambda t: el(tag, [copy.deepcopy(g)] * i + [t] + [copy.deepcopy(g)] * (k - i - 1)))))
    for v in [a for a in VALUED if a[0] in ("notation", "open", "actiontype")]:
        tag = {"notation": "menclose", "open": "mfenced", "actiontype": "maction"}[v[0]]
        for x in [mi("x")] + some(r, hearts, 3):
            yield series(*longer(grown(lambda t: el(tag, [t, mi("b")], v), x)))
            yield series(*longer(grown(lambda t: el(tag, [t], v), x)))
    for tag in gen.EVERY if hasattr(gen, "EVERY") else targets.EVERY:
        if COUNTS.get(tag):
            yield series(*[math(*[el(tag, leaves(COUNTS[tag])) for _ in range(w)]) for w in (4, 8, 16, 32, 64, 128)])
        else:
            yield series(*[math(el(tag, leaves(max(w, 3)))) for w in (8, 16, 32, 64, 128, 256)])
            yield series(*[math(*[el(tag, leaves(3)) for _ in range(w)]) for w in (4, 8, 16, 32, 64)])
    for w in range(4):      # tables of all shapes
        yield series(*[math(T("mtable", *[T("mtr", *[T("mtd", mi("a")) for _ in range(x if w % 2 else 2)]) for _ in range(x if w < 2 else 3)])) for x in (2, 4, 8, 16)][:4 if w != 1 else 3])
    for tag, x in itertools.product(gen.TOKENS, ["a", "a ", "é", "α", "-", "a-", "1", "𝔄", "(", " \u00a0", "ab é "]):
        yield series(*[math(T(tag, x=(x * k).strip(" "))) for k in (60, 120, 240, 480, 960)])
    yield series(*[math(T("mfenced", *leaves(w), separators=";," * w)) for w in (16, 32, 64, 128)])
    yield series(*[math(T("mfenced", *leaves(3), open="(" * w, close="]" * w)) for w in (60, 120, 240, 480)])
    yield series(*[math(el("mi", [], *[("a%d" % i, "v") for i in range(w)])) for w in (16, 32, 64, 128)])
    # documents
    for wrap in (lambda e: elem("div", (), [e]), lambda e: elem("p", (), [text("t "), e, text(" u")]), lambda e: elem("b", [attr("c", "d")], [comment("x"), e])):
        out = []
        for d in (8, 16, 32, 64):
            e = plain(math(mi("x")))
            for _ in range(d):
                e = wrap(e)
            out.append(doc(e))
        yield series(*out)
    for item in (lambda: plain(math(mi("x"))), lambda: plain(math(T("mfrac", mi("a"), mi("b")))), lambda: comment(" c "), lambda: instr("pi x"), lambda: text("t & u "),
                 lambda: elem("mml:mi", (), [text("x")]), lambda: plain(math())):
        yield series(*[doc(elem("div", (), [item() for _ in range(w)])) for w in (16, 32, 64, 128)])
    # malformed attributes: the same one often, and ones that cannot be repaired
    for q, v in (("u", "1"), ("n", ""), ("e", "")):
        for k in (1, 3, 6):
            yield series(*[doc(elem("math", (), [elem("mi", [attr("abcdef"[i % k], v, q)], [text("x")]) for i in range(w)])) for w in (16, 32, 64, 128)])
    for _ in range(n // 2):
        g = Gen(seed(r), r.choice(list(FOCUS.values()) + [[]] * 4), noise=.2)
        t = [g.formula(12)["k"] for _ in range(3)]
        yield series(*[math(*[fresh(x) for ks in t * w for x in ks]) for w in (1, 2, 4, 8, 16)])
    # every conversion ends
    most = 4500
    units = [" ", "\"", "'", "'\"", "<", "<!--", "<![CDATA[", "<?", " a=", " a=b", " a", "' a=\"", "<a \"", "<a '", "a", "a=", "< ", "a= b= ", "<!-- -", "&amp",
             "&", "\n", "\r", "\t", "-", "]]>", ">", "mml:", "<mi a=", "<mi a= ", "<mi a=\"", "=", "= ", " =", "a =", "/", "</", "<mi>", "</mi>", "<mi/>",
             "<mi a/>", "(", "[", "\\", "\u00a0", "\u2003", "é", "a<", "<a", "&#x41;", ";", "a='b' ", "--", "-- ", "?", "!", "a.", "\u00a0 ", "a\n", "aé"]
    places = [("<math>", "</math>"), ("<math ", "><mi>x</mi></math>"), ("<math a=", "><mi>x</mi></math>"), ("<math a=\"1", "\"><mi>x</mi></math>"), ("<math><mi>", "</mi></math>"),
              ("<math><mtext>", "</mtext></math>"), ("<math><mo>", "</mo></math>"), ("<math><mn>", "</mn></math>"), ("", "<math/>"), ("<math>", ""), ("", ""), ("<math/>", ""),
              ("<math><mi a= ", "<mi a= ></math>"), ("<!--", "--><math><mi b=></math>"), ("<math><mfenced separators='", "'><mi>x</mi><mi>y</mi></mfenced></math>"),
              ("<math><mfenced open='", "'><mi>x</mi></mfenced></math>"), ("<math><mtext mathvariant='", "'>x y</mtext></math>"), ("<math><mi>x</mi><mi a=1>", "</mi></math>")]
    for u, (p, s) in itertools.product(units, places):
        k = (r.choice([300, 1000, most]) - len(p) - len(s)) // len(u)
        yield event("ends", [raw(p + u * k + s)])
    for _ in range(n * 3):
        p, s = r.choice(places)
        us = [r.choice(units) for _ in range(r.choice([2, 2, 3, 5]))]
        k = r.choice([100, 1000, most])
        x = "".join(us) if r.random() < .5 else ""
        while len(x) < k:
            x += r.choice(us) if not x or r.random() < .6 else x[:k - len(x)]
        yield event("ends", [raw(p + x[:most] + s)])
    for e in some(r, list(itertools.islice(damage.c06(r, max(40, n // 3)), 4000)), n * 10):
        yield event("ends", e["docs"][:1])
    for t in corpus.TREES:
        yield tree_event("ends", copy.deepcopy(t))
    for d in (20, 40, 79):
        for _ in range(n // 8):
            t = math(Gen(seed(r)).chain(d))
            if depth(t) <= 80:
                yield tree_event("ends", t)


# --- C25 -------------------------------------------------------------------------
KNOWN = {"math", "mi", "mo", "mn", "mtext", "msup", "msub", "msubsup", "mfrac", "msqrt", "mroot", "munder", "mover", "munderover", "mmultiscripts",
         "mfenced", "mtable", "mtr", "menclose", "merror", "mphantom", "maction"}
ROWS = {"math", "msqrt", "menclose", "merror"}
SCRIPTS = ("msup", "msub", "msubsup")
GROUPS = ["mrow"] * 6 + ["mstyle", "mpadded", "mtd", "semantics"] * 2 + gen.UNKNOWN


def is_row(n): return n["t"] in ROWS or n["t"] not in KNOWN
def is_group(n): return n["t"] not in KNOWN and n["k"]


def spots(t):
    """Nodes whose children may be regrouped, with what may be done."""
    out = []

    def go(n, base):
        if n["t"] in gen.TOKENS:
            return
        for i, c in enumerate(n["k"]):
            b = i == 0 and n["t"] in SCRIPTS
            if is_row(n) and not base:
                out.append((n, i, "run"))
                if is_group(c):
                    out.append((n, i, "splice"))
            elif n["t"] != "mmultiscripts" and not is_row(n):
                if not b or len(c["k"]) <= 1:
                    out.append((n, i, "wrap"))
                if is_group(c) and len(c["k"]) == 1 and (not b or len(c["k"][0]["k"]) <= 1):
                    out.append((n, i, "unwrap"))
            go(c, b)
    go(t, False)
    return out


def group(r, ks, tag=None):
    g = el(tag or r.choice(GROUPS), ks)
    if r.random() < .25:
        g["a"] = [r.choice(gen.STD_ATTRS + VALUED)]
    if r.random() < .1:
        g["x"] = r.choice(gen.WORDS)
    return g


def regrouped(r, t, k, tag=None, kinds=None):
    t = fresh(t)
    for _ in range(k):
        ss = [s for s in spots(t) if not kinds or s[2] in kinds]
        if not ss:
            break
        n, i, what = r.choice(ss)
        if what == "run":
            j = r.randint(i + 1, len(n["k"]))
            n["k"][i:j] = [group(r, n["k"][i:j], tag)]
        elif what == "wrap":
            n["k"][i] = group(r, [n["k"][i]], tag)
        else:
            n["k"][i:i + 1] = n["k"][i]["k"]
        if depth(t) > 76:
            break
    return t


def everywhere(r, t, tag, pairs=False):
    """A group around every child (or every run) there is."""
    t = fresh(t)
    for n, i, what in spots(t):
        if what in ("run", "wrap") and len(n["k"]) > i and not (n["t"] == "mtable"):
            n["k"][i] = group(r, [n["k"][i]], tag)
    for n, i, what in spots(t) if pairs else ():
        if what == "run" and i == 0 and len(n["k"]) > 2:
            h = len(n["k"]) // 2
            n["k"] = [group(r, n["k"][:h], tag), group(r, n["k"][h:], tag)]
    return t


def c25(r, n):
    def regroup(t, *us):
        return event("regroup", [plain_doc(t)] + [plain_doc(u) for u in us])

    def parts(t, cuts):
        t = fresh(t)
        ks, out, a = t["k"], [], 0
        for b in sorted(cuts) + [len(ks)]:
            out.append(math(*ks[a:b]))
            a = b
        return event("parts", [plain_doc(t)] + [plain_doc(x) for x in out])

    def cut(t, k):
        w = len(t["k"])
        return parts(t, [r.randint(0, w) for _ in range(k)])
    for tag in sorted(set(GROUPS)):
        t = zoo(r)
        yield regroup(t, everywhere(r, t, tag))
        t = r.choice(corpus.TREES)
        yield regroup(t, everywhere(r, t, tag), regrouped(r, t, 4, tag))
    for t in corpus.TREES:
        yield regroup(t, *[regrouped(r, t, k) for k in (1, 2, 5)], everywhere(r, t, "mrow", True), regrouped(r, t, 8, None, ("splice", "unwrap")))
        yield cut(t, 1)
        yield parts(t, list(range(1, len(t["k"]))))
    z = zoo(r)
    yield parts(z, list(range(1, len(z["k"]))))
    bases = [math(fresh(t)) for t in OPERANDS] + [in_context(c, copy.deepcopy(r.choice(OPERANDS))) for c in NAMES for _ in range(4)]
    for t in bases:
        yield regroup(t, regrouped(r, t, 1), regrouped(r, t, 1), regrouped(r, t, 3), everywhere(r, t, r.choice(GROUPS)))
        yield cut(t, 1)
    # one group at a time, at every place of every context
    for c in NAMES:
        t = in_context(c, copy.deepcopy(r.choice(OPERANDS)))
        for i in range(len(spots(t))):
            u = fresh(t)
            m, j, what = spots(u)[i]
            if what in ("run", "wrap"):
                m["k"][j] = group(r, [m["k"][j]], "mrow")
            else:
                m["k"][j:j + 1] = m["k"][j]["k"]
            yield regroup(t, u)
    # neighbours, in one row and in two
    ends = OPERANDS + corpus.SIBLINGS + [mo(x) for x in ("(", ")", "{", "|", ",", "-", "−", "!", "′", "⁡", "⁢")]
    for a in ends:
        for b in some(r, ends, 5):
            t = math(fresh(a), fresh(b))
            yield parts(t, [1])
            if r.random() < .5:
                yield regroup(t, math(mrow(fresh(a)), fresh(b)), math(fresh(a), mrow(fresh(b))), math(mrow(fresh(a), fresh(b))))
    for i in range(n * 7):
        g = Gen(seed(r), r.choice(list(FOCUS.values()) + [["mrow", "mstyle", "unknown"]] * 4 + [[]] * 4), noise=r.choice([0, 0, .2]))
        t = g.formula(r.choice([4, 8, 15, 30]))
        if r.random() < .12:
            ns = [x for x in walk(t) if x["t"] in COUNTS]
            if ns:
                r.choice(ns)["k"].append(mi("w"))
        us = [regrouped(r, t, r.choice([1, 1, 2, 4, 9])) for _ in range(2)]
        ds = [plain_doc(t)] + [plain_doc(u) for u in us]
        if r.random() < .2:
            ds.append(dressed(r, us[0]))
        yield event("regroup", ds)
        yield cut(t if len(t["k"]) > 1 or r.random() < .3 else math(*fresh(t)["k"], *g.formula(6)["k"]), r.choice([1, 1, 2, 4]))
    for p in ALL:
        ts = [t for t in targets.TARGETS[p](r, max(40, n // 4)) if size(t) < 40]
        for t in some(r, ts, n):
            t = math(fresh(t)) if r.random() < .5 else in_context(r.choice(NAMES), copy.deepcopy(t))
            yield regroup(t, regrouped(r, t, 1), regrouped(r, t, r.choice([2, 4])), everywhere(r, t, r.choice(GROUPS)))
            if r.random() < .4:
                yield parts(math(fresh(t), *[fresh(r.choice(ends))]) if t["t"] != "math" else math(*fresh(t)["k"], fresh(r.choice(ends))), [len(t["k"])])
    for t in targets.twins(r) + targets.selfnested(r) + targets.siblings(r, 300):
        t = t if t["t"] == "math" else math(t)
        yield regroup(t, regrouped(r, t, 2), everywhere(r, t, r.choice(GROUPS)))
        yield cut(t, r.choice([1, 2]))
    # every operator, and what else may end a row, in first, middle and last place, directly in a formula
    for e in [mo(x) for x in sorted(set(gen.OPS + [chr(c) for c in range(33, 127)] + gen.SEPARATORS[2:9]))] + corpus.SIBLINGS:
        for ks in ([e, mi("x")], [mi("x"), e], [mi("x"), e, mi("y")]):
            t = math(*[fresh(k) for k in ks])
            yield regroup(t, math(mrow(*fresh(t)["k"])), math(fresh(ks[0]), mrow(*[fresh(k) for k in ks[1:]])), everywhere(r, t, r.choice(GROUPS)),
                          math(mrow(*[fresh(k) for k in ks[:-1]]), fresh(ks[-1])))
            yield parts(t, [r.randint(1, len(ks) - 1)])
    for tag in ("mrow", "mstyle", "mtd", "foo", "none", "mprescripts", "mlabeledtr", "semantics"):     # onions
        for d in (1, 2, 3, 5, 9, 17, 33, 60):
            for x in (mi("x"), T("mfrac", mi("a"), mi("b"))):
                u = fresh(x)
                for _ in range(d):
                    u = el(tag, [u])
                yield regroup(math(fresh(x)), math(u))
                yield regroup(math(T("msup", mi("a"), fresh(x)), T("mfrac", fresh(x), mi("z"))), math(T("msup", mi("a"), fresh(u)), T("mfrac", fresh(u), mi("z"))))
    for w in (2, 3, 5, 9, 17, 33, 65):
        ks = leaves(w, r)
        t = math(*ks)
        left = right = None
        for k in ks:
            left = k if left is None else mrow(left, fresh(k))
        if w <= 60:
            yield regroup(t, math(left))
        yield regroup(t, math(*[mrow(k) for k in leaves(0)] + [mrow(fresh(k)) for k in ks]))
        yield parts(t, list(range(1, w)))
        yield parts(t, [w // 2])


# --- C26 -------------------------------------------------------------------------
UNFIT = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ\\{}")
ONE_SIDED = ("left", "right", "madruwb")


def paired(t):
    t = fresh(t)
    for x in walk(t):
        if x["t"] in gen.TOKENS and not (x["t"] == "mo" and x["x"] in ("{", "}")):
            x["x"] = "".join(c for c in x["x"] if c not in "{}\\")
        if x["t"] == "mfenced":
            x["a"] = [(a, v if v in ("{", "}") and a != "separators" or a not in ("open", "close", "separators") else "".join(c for c in v if c not in UNFIT))
                      for a, v in x["a"]]
            if any(y["t"] == "mtable" for y in walk(x)) and not dict(x["a"]).get("close"):
                x["a"] = [(a, v) for a, v in x["a"] if a != "open"]
        if x["t"] == "menclose":
            x["a"] = [(a, v if v not in ONE_SIDED else "box") for a, v in x["a"]]
    return t


def c26(r, n):
    def ev(t):
        return tree_event("pairs", paired(t if t["t"] == "math" else math(t)))
    ops = ["(", ")", "[", "]", "{", "}", "|", "||", "|||", "⟮", "⟯", "⟦", "⟧", "⌊", "⌋", "⌈", "⌉", "⟨", "⟩", "‖", "<", ">", "/", ".", "❲", "❳", "⟬", "⟭"]

    def delimited(t, share):
        """Let operators be delimiters."""
        t = fresh(t)
        for x in walk(t):
            if x["t"] in gen.TOKENS and r.random() < share:
                x["t"], x["x"] = "mo", r.choice(ops)
        return t
    for o in ops:
        for c in NAMES:
            yield ev(in_context(c, mo(o)))
        for p in some(r, ops, 8):
            for tag in ("mrow", "msqrt", "mfenced", "mtr", "menclose", "merror", "maction", "mfrac", "msup", "mroot", "mover", "munder", "mtd", "mtable"):
                yield ev(el(tag, [mo(o), mo(p)]))
            yield ev(mrow(mo(o), mi("x"), mo(p)))
            yield ev(el("msup", [mrow(mo(o), mi("x"), mo(p)), mo(p)]))
            yield ev(el("mfrac", [mrow(mo(o), mi("x")), mrow(mi("x"), mo(p))], ("bevelled", "true")))
            yield ev(T("mtable", T("mtr", T("mtd", mo(o)), T("mtd", mo(p))), T("mtr", T("mtd", mi("x")), T("mtd", mo(o)))))
    for (a, b), inner in itertools.product(gen.FENCE_PAIRS + [(o, c) for o in ops[:8] for c in some(r, ops, 3)], (
            [mi("a"), mi("b")], [T("mtable", T("mtr", T("mtd", mi("a"))))], [mo("{"), T("mtable", T("mtr", T("mtd", mo("("))))], [mo("("), mi("a")], [])):
        t = el("mfenced", fresh(mrow(*inner))["k"], *[("open", a)] * (a is not None), *[("close", b)] * (b is not None))
        yield ev(t)
        yield ev(in_context(r.choice(NAMES), t))
        yield ev(el("mfenced", [t, fresh(t)], *[("open", a)] * (a is not None)))
    for v in gen.NOTATIONS + [x for x in gen.ODD_NOTATIONS if x]:
        for ks in ([], [mi("a")], [T("mspace")] * 2, [mrow()] * 3, [T("mphantom", mi("x")), mi("")], [mo("("), mi("a")], [T("mfenced", mi("a"), open="[", close="|")], [T("menclose", mi("a"), notation="actuarial"), mo("}")]):
            for c in some(r, NAMES, 5):
                yield ev(in_context(c, el("menclose", [fresh(k) for k in ks], ("notation", v))))
    for t in corpus.TREES + targets.twins(r) + targets.selfnested(r) + targets.siblings(r, 400):
        yield ev(t)
        yield ev(delimited(t, .4))
    for t in with_attributes(r, [t for t in OPERANDS if size(t) > 1], .5):
        yield ev(delimited(t, r.choice([0, .5])))
    for k in gen.TABLE_KEYS:
        yield ev(math(T("mrow", mi(k), mo(k), mn(k), mtext(k)), T("mfrac", mo(k), mo(k))))
    for p in ALL:
        ts = [t for t in targets.TARGETS[p](r, max(40, n // 3)) if size(t) < 60]
        for t in some(r, ts, n):
            t = delimited(t, r.choice([0, .3, .8]))
            yield ev(math(t) if r.random() < .5 else in_context(r.choice(NAMES), t))
    for i in range(n * 8):
        g = Gen(seed(r), r.choice(list(FOCUS.values()) + [["mfenced", "menclose", "mtable", "msup"]] * 6))
        yield ev(delimited(g.formula(r.choice([5, 15, 30, 60])), r.choice([0, .3, .8])))
    for d in (5, 10, 20, 40, 60):
        for _ in range(5):
            yield ev(delimited(math(Gen(seed(r)).chain(d)), .5))


# --- C27 -------------------------------------------------------------------------
def own(cs):
    return all(c not in "^_'" or i and cs[i - 1] == "\\" for i, c in enumerate(cs))


BROUGHT = {k for d in ("symbols_named", "operators_named", "symbols_glyph", "operators_glyph", "numbers", "accented", "fonts")
           for k, v in gen.DATA[d].items() if not own(v)}


def unscripted(t):
    """Without tokens and fences that are scripts or primes themselves."""
    t = fresh(t)
    for x in walk(t):
        if x["t"] in gen.TOKENS:
            s = "".join(c for c in x["x"] if c not in "{}\\_'" and (c != "^" or x["t"] == "mo"))
            x["x"] = s if x["t"] == "mo" and s == "^" else "".join(c for c in s if c not in BROUGHT and c != "^") if s.strip() not in BROUGHT else "b"
        if x["t"] == "mfenced":
            x["a"] = [(a, "".join(c for c in v if c not in "{}\\^_'") if a in ("open", "close", "separators") else v) for a, v in x["a"]]
    return t


def c27(r, n):
    def ev(t):
        return tree_event("scripts", unscripted(t if t["t"] == "math" else math(t)))
    bases = OPERANDS + [mrow(T("mspace"), T("mspace")), mrow(mi(""), T("mphantom", mi("x"))), mrow(mtext(""), T("none")), mrow(T("mrow"), T("maction"))]
    y, z = mi("y"), mi("z")
    scripted = [
        lambda b: T("msup", b, y), lambda b: T("msub", b, y), lambda b: T("msubsup", b, y, z), lambda b: T("munderover", b, y, z),
        lambda b: T("mmultiscripts", b, y, z), lambda b: T("mmultiscripts", b, T("mprescripts"), y, z), lambda b: T("mmultiscripts", b, y, z, T("mprescripts"), y, z),
        lambda b: T("msup", y, b), lambda b: T("msub", y, b), lambda b: T("msubsup", y, b, z), lambda b: T("msubsup", y, z, b), lambda b: T("munderover", y, b, z),
        lambda b: T("munderover", y, z, b), lambda b: T("mmultiscripts", y, b, b), lambda b: T("mmultiscripts", y, T("mprescripts"), b, b)]
    over = scripted[:7]
    # every script over every script, over every operand; in rows, groups, tables, fractions
    mid = [lambda b: b, lambda b: mrow(b), lambda b: mrow(b, T("mspace")), lambda b: mrow(T("mphantom", y), b), lambda b: mrow(z, b), lambda b: mrow(b, z),
           lambda b: T("mstyle", b), lambda b: T("mpadded", mrow(b)), lambda b: T("maction", b, y, actiontype="tooltip"), lambda b: T("maction", b),
           lambda b: T("semantics", b), lambda b: T("foo", b), lambda b: T("mtd", b), lambda b: T("mtr", b), lambda b: T("mtable", T("mtr", T("mtd", b))),
           lambda b: T("mfenced", b), lambda b: T("menclose", b, notation="right"), lambda b: T("menclose", b, notation="box"), lambda b: T("mfrac", y, b, bevelled="true"),
           lambda b: T("mfrac", b, y), lambda b: T("mover", b, mo("→")), lambda b: T("mover", mo("^"), b), lambda b: T("munder", b, mo("⏟")), lambda b: T("msqrt", b),
           lambda b: T("mroot", b, z), lambda b: T("mroot", z, b), lambda b: T("merror", b), lambda b: T("mtr", T("mtd", z), T("mtd", b)),
           lambda b: T("mtable", T("mtr", T("mtd", z)), T("mtr", T("mtd", b))), lambda b: mrow(b, b), lambda b: T("maction", z, b)]
    for f, m, g in itertools.product(scripted, mid, scripted):
        if r.random() < (.6 if f in over else .2):
            yield ev(f(m(g(mi("x")))))
    for f, b in itertools.product(scripted, bases):
        yield ev(f(fresh(b)))
        yield ev(math(z, f(mrow(fresh(b))), f(fresh(b))))
        yield ev(f(r.choice(mid)(r.choice(over)(fresh(b)))))
    for f, g, h in itertools.product(over, repeat=3):
        yield ev(f(g(h(mi("x")))))
        yield ev(f(r.choice(mid)(g(r.choice(mid)(h(fresh(r.choice(bases))))))))
    for f, b in itertools.product(over, bases):     # in every context
        for c in some(r, NAMES, 4):
            yield ev(in_context(c, f(fresh(b))))
            yield ev(f(in_context(c, fresh(b))))
    empties = [b for b in bases if b["t"] in ("mspace", "none", "mphantom", "mtable", "maction", "mrow", "foo", "msqrt", "mtext", "mi")]
    for c in [c for c in NAMES if CONTEXTS[c]]:
        for b in some(r, empties, 6):
            yield ev(in_context(c, fresh(b)))
            yield ev(math(z, T("msup", CONTEXTS[c](fresh(b)), y)))
            yield ev(r.choice(over)(CONTEXTS[c](r.choice(over)(fresh(b)))))
    for v in gen.NOTATIONS + [x for x in gen.ODD_NOTATIONS if x]:
        for g, f in itertools.product(over, some(r, over, 3)):
            yield ev(f(el("menclose", [g(mi("x"))], ("notation", v))))
    for (a, b), inner in itertools.product(gen.FENCE_PAIRS, ([], [mi("a")], [T("msup", mi("a"), mi("b"))], [T("mtable", T("mtr", T("mtd", T("msub", mi("a"), mi("b")))))])):
        yield ev(r.choice(over)(el("mfenced", fresh(mrow(*inner))["k"], *[("open", a)] * (a is not None), *[("close", b)] * (b is not None))))
    for t in corpus.TREES + targets.twins(r) + targets.selfnested(r) + targets.siblings(r, 400):
        yield ev(t)
        yield ev(r.choice(over)(t if t["t"] != "math" else mrow(*t["k"])))
    for t in with_attributes(r, [t for t in OPERANDS if size(t) > 1], .5):
        yield ev(math(z, r.choice(over)(t)))
    for k in gen.TABLE_KEYS:
        yield ev(math(T("msub", mi(k), mn("1")), T("msup", mo(k), mn("2")), T("msup", mn(k), y), T("msubsup", mtext(k), y, z), T("munderover", mrow(mi(k)), y, z)))
    for p in ALL:
        ts = [t for t in targets.TARGETS[p](r, max(40, n // 3)) if size(t) < 60]
        for t in some(r, ts, n):
            t = r.choice(over)(r.choice(mid)(fresh(t))) if r.random() < .6 else fresh(t)
            yield ev(t if r.random() < .5 else in_context(r.choice(NAMES), t))
    focus = [["msup", "msub", "msubsup", "munderover", "mmultiscripts"]] * 6 + [["msup", "mrow", "mphantom", "unknown"]] * 2
    for i in range(n * 8):
        yield ev(Gen(seed(r), r.choice(list(FOCUS.values()) + focus)).formula(r.choice([5, 15, 30, 60])))
    for d in (5, 10, 20, 40, 60):
        for _ in range(5):
            yield ev(math(Gen(seed(r), r.choice(focus)).chain(d)))
    for f in over:                                   # the same script over and over
        for d in (4, 9, 20, 38):
            t = mi("x")
            for _ in range(d):
                t = f(t)
            yield ev(t)


PRODUCE = {"C24": c24, "C25": c25, "C26": c26, "C27": c27}

"""C06: documents with malformed attributes, and damaged texts."""
import copy, random, re

import corpus, gen
from core import event
from docs import attr, comment, doc, elem, instr, junk, math, mi, mo, plain_doc, raw, text, walk, write_doc
from dress import Dress
from gen import CONTEXTS, FOCUS, Gen, in_context

NAMES = ["foo", "a", "mi", "math", "mrow", "open", "close", "mathvariant", "notation", "bevelled", "separators",
         "actiontype", "x", "e", "data-x", "a.b", "A", "_", "stretchy", "fence", "value", "name", "selection",
         "xml", "id", "class", "b2", "displaystyle", "l", "m"]
VALUES = ["1", "x", "true", "bold", "toggle", "box", "(", ")", "[", "a,b", "50%", "#f00", "mi", "a=b", "0", "\\",
          "$1", "(?", "[a", "*", "+", "é", "α", ".*", "{0}", "\\1", "|", "^", "$", "foo", "a&b", ";", "\\s", "a?",
          "http://a/b", "1/2", "/a", "a/b/c", "1.5em", "-1", "+1", "a=b=c", "rgb(1,2,3)", "100%", "a:b", "x.y", "a,b;c", "~", "@", "`", "!", "[1]",
          "{", "}", "a|b", "(a)", "\\d+", "\\w", "None", "null", "no", "left", "1em", "a-b", "_", "#", "..", "::", "//", "==", "a==", "漢", "𝔄"]
BROKEN = ["<", "< ", "&", "& ", "&foo;", "&nbsp;", "<mi>", "</mi>", "</math>", "<mi", "<mi ", "<a b>", "<>", "</>",
          "<!-- x", "<!-- a -- b -->", "<![CDATA[ x", "<?pi", "]]>", "<mi a=\"1\" a=\"2\"/>", "<mi a=\"<\"/>", "<1/>",
          "<mi a=\"1\"b=\"2\"/>", "<mi a='1/>", "<mi a=\"1></mi>", "&#0;", "&#xZ;", "&amp", "<mi><mo></mi></mo>", "<mi/></mi>",
          "<mi x=\"&\"/>", "<!x>", "<!DOCTYPE math>", "<?xml version=\"1.0\"?>", "< mi/>", "<mi/><", "a<b", "<mi></ mi>",
          "&lt", "<mi foo </mi>", "</mi <mi/>", "<mi <mi/>", "<mi </mi>", "<mi foo", "&alpha;", "<mi>x</mo>", "<mi/ >"]

PUBLIC = '<!DOCTYPE math PUBLIC "-//W3C//DTD MathML 2.0//EN" "http://www.w3.org/Math/DTD/mathml2/mathml2.dtd">'


def elements(i):
    if i["k"] == "e":
        yield i
        for c in i["c"]:
            yield from elements(c)


def texts(i):
    if i["k"] == "t":
        yield i
    if i["k"] == "e":
        for c in i["c"]:
            yield from texts(c)


WORD = re.compile(r"[A-Za-z_][A-Za-z0-9_.-]*$")


def words_of(root):
    """Words found elsewhere in the document."""
    ws = set()
    for e in elements(root):
        ws.add(e["t"])
        for a in e["a"]:
            ws.add(a["n"])
            ws.update("".join(a["v"]).split())
    for t in texts(root):
        ws.update("".join(t["x"]).split())
    return sorted(w for w in ws if WORD.match(w) and ":" not in w)


def malformed(r, names):
    n = r.choice(names) if names and r.random() < .6 else r.choice(NAMES)
    q = r.choice("nneeuu")
    v = ""
    if q == "u":
        v = r.choice(names) if names and r.random() < .4 else r.choice(VALUES)
    return attr(n, v, q, r.choice([" ", " ", " ", "  ", "\n", "\t", " \r\n "]))


def inject(r, d, distinct, spread, careful):
    """d with malformed attributes; careful: of kinds that have to be repaired."""
    bad = copy.deepcopy(d)
    names = words_of(d["r"])
    es = list(elements(bad["r"]))
    for m in [malformed(r, names) for _ in range(distinct)]:
        for e in r.sample(es, min(len(es), r.choice([1, 1, 1, 2, 3, spread]))):
            if careful and e["s"] and not e["c"]:
                continue
            a = copy.deepcopy(m)
            a["w"] = list(r.choice([" ", " ", "  ", "\t", "\n"]))
            if careful and a["q"] == "u" and a["v"][-1:] == ["/"]:
                a["v"].append("x")      # (a slash at the end may look like a self-closing tag)
            e["a"].insert(len(e["a"]) if r.random() < .4 else r.randint(0, len(e["a"])), a)
    if careful:
        for e in es:
            # a bare one only at the end
            low = [a for a in e["a"] if a["q"] in "ne"]
            e["a"] = [a for a in e["a"] if a["q"] not in "ne"] + low[:1]
    return bad


def doc_near(r):
    """A document whose texts and values look like attributes."""
    g = Gen(r.randrange(1 << 30), r.choice(list(FOCUS.values()) + [[]] * 5), noise=.35)
    t = g.formula(r.choice([2, 4, 8, 15]))
    if r.random() < .1:
        t = copy.deepcopy(r.choice(corpus.TREES))
    ws = NAMES + ["foo=", "a=b", "x=1", "foo foo", "a foo b", "e=", "a b=c d"]
    for x in walk(t):
        if x["t"] in gen.TOKENS and r.random() < .4:
            x["x"] = r.choice(ws)
        x["a"] = [(a, r.choice(ws) if r.random() < .3 and not a.startswith("x") else v) for a, v in x["a"]]
    dr = Dress(random.Random(r.randrange(1 << 30)), ws=r.choice([0, 0, .3, .7]), extra=r.choice([0, .1, .3]),
               refs=r.choice([0, 0, .3]), prefix=r.choice([0, 0, .5]))
    d = dr.document(t)
    d["b"] = [i for i in d["b"] if i["k"] != "d"]
    for e in list(elements(d["r"])):
        if r.random() < .15:
            near = r.choice(["<mi foo>", "<a b=c>", "it's", 'say "', "<mi a= >", "foo", "<x foo", "a='", " foo ", "<mi e=>"])
            e["c"].insert(r.randint(0, len(e["c"])),
                          r.choice([comment(near), instr("pi " + near), text(near, "cdata") if e["t"] in gen.TOKENS else comment(near)]))
    return d


def clean_copy(d):
    d = copy.deepcopy(d)
    for e in elements(d["r"]):
        e["a"] = [a for a in e["a"] if a["q"] in "ds"]
    return d


PIECE = re.compile(r"<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>|(<[\w.-]+)((?:[^<>\"']|\"[^\"]*\"|'[^']*')*)>", re.S)
GOOD = re.compile(r"(\s+[\w:.-]+\s*=\s*(?:\"[^\"<]*\"|'[^'<]*'))(?=[\s/>]|$)|(/$)|\S+")


def clean_text(x):
    """x without the malformed attributes of its start tags."""
    def tag(m):
        if m[1] is None:
            return m[0]
        body = re.sub(r"\s+(?![\w:.-]+\s*=\s*[\"'])(?!/?$)[^\s\"'>]+(?=[\s>]|$)", "", m[2])
        while True:
            b = re.sub(r"\s+(?![\w:.-]+\s*=\s*[\"'])(?!/?$)[^\s\"'>]*[^\s\"'>/](?=[\s>/]|$)", "", body)
            if b == body:
                break
            body = b
        return m[1] + body + ">"
    return PIECE.sub(tag, x)


INSERTS = list("<>&\"'=/ ;!-[]?:x1\n\t") + ["--", "]]>", "/>", "</", "=\"", " a", " a=", " a=b", " a=\"b\"", "<mi>", "</mi>",
                                          "<!--", "-->", "&amp;", "&lt;", "<mi/>", " foo", "mml:"]


def mutate(r, x):
    """A text damaged at one or a few places."""
    for _ in range(r.choice([1, 1, 1, 1, 2, 2, 3])):
        if not x:
            break
        # rather inside markup than in texts
        places = [i for i, c in enumerate(x) if c in "<>=\"'/& "] if r.random() < .7 else range(len(x))
        i = r.choice(list(places) or [0])
        i = min(len(x), max(0, i + r.choice([-1, 0, 0, 1])))
        u = r.random()
        if u < .35:
            x = x[:i] + x[i + 1:]
        elif u < .7:
            x = x[:i] + r.choice(INSERTS) + x[i:]
        elif u < .76:
            x = x[:i]
        elif u < .8:
            x = x[i:]
        elif u < .88:
            j = min(len(x), i + r.choice([2, 3, 5, 8]))
            x = x[:i] + x[j:]
        elif u < .94:
            j = min(len(x), i + r.choice([1, 2, 4, 8]))
            x = x[:j] + x[i:j] + x[j:]
        else:
            x = x[:i] + x[i + 1:i + 2] + x[i:i + 1] + x[i + 2:]
    return x


def repair(bad, clean):
    return event("repair", [bad, clean])


def c06(r, n):
    # kinds that have to be repaired, and any kinds
    for i in range(n * 9):
        d = doc_near(r)
        bad = inject(r, d, r.choice([1, 1, 2, 2, 3, 4]), 5, True) if i % 3 else inject(r, d, r.choice([1, 2, 3, 4, 5, 6, 8]), 5, False)
        yield repair(bad, clean_copy(bad))
    # one malformed attribute of each kind in each place of each context
    for name in sorted(CONTEXTS):
        for q, v in (("n", ""), ("e", ""), ("u", r.choice(VALUES))):
            d = plain_doc(in_context(name, mi("x", mathvariant="bold")))
            bad = copy.deepcopy(d)
            for e in elements(bad["r"]):
                if r.random() < .5:
                    e["a"].append(attr("foo", v, q))
            yield repair(bad, clean_copy(bad))
    # every value, in every kind of tag
    for v in VALUES:
        if v.endswith("/"):
            v += "x"
        for w in ("foo", r.choice(NAMES)):
            body = [elem(t, [attr(w, v, "u", " ")], [text("y")]) for t in r.sample(["mi", "mo", "mn", "mtext"], 2)]
            body.append(elem("mrow", r.sample([attr(w, v, "u", " "), attr("id", v.replace("<", ""), "d", " ") if w != "id" else attr("title", "t"),
                                               attr("class", "c") if w != "class" else attr("title", "t")], 3), [elem("mi", [], [text("z")])]))
            body.append(elem("mtext", [], [text(v)]))
            bad = doc(elem("math", r.choice([[], [attr(w, v, "u", " ")]]), body))
            yield repair(bad, clean_copy(bad))
    # near misses: the same word as a value, a name, a text, a part of a word
    for w in ["foo", "open", "x", "mi", "true", "mathvariant"]:
        for q, v in (("n", ""), ("e", ""), ("u", "b"), ("u", w)):
            m = attr(w, v, q)
            full = "".join(m["n"]) + ("=" if q in "eu" else "") + v
            for t in [full, full + " ", "a " + full + " b", full + ">", "<mi " + full + ">", full * 2, full + "=", "pre" + full]:
                body = [elem("mi", [copy.deepcopy(m)], [text("y")]), elem("mtext", [], [text(t)]), elem("mtext", [], [text(t, "cdata")]),
                        elem("mfenced", [attr("open", t), attr("close", " " + full + " ", "s")], [elem("mi", [], [text("z")])]),
                        comment(t.replace("--", "")), instr("pi " + t.replace("?>", "")),
                        elem("mi", [attr(w + "x", "1"), attr("y" + w, "2")], [text("u")]), elem("mo", [copy.deepcopy(m)], [text("+")])]
                if q != "u" or v != w:
                    e2 = elem("mn", [dict(attr(w, "3"), e=[list(r.choice(["", " "])), list(r.choice(["", " ", "  "]))])], [text("5")])
                    body.append(e2)
                r.shuffle(body)
                bad = doc(elem("math", content=body))
                yield repair(bad, clean_copy(bad))
    # many repeated ones; one per tag
    for k in (2, 5, 9, 17):
        for q, v in (("n", ""), ("e", ""), ("u", "b")):
            bad = doc(elem("math", content=[elem("mi", [attr("foo", v, q)], [text("v%d" % i)]) for i in range(k)]))
            yield repair(bad, clean_copy(bad))
    for k in range(1, 9):
        for q, v in (("n", ""), ("e", ""), ("u", "b")):
            bad = doc(elem("math", content=[elem("mi", [attr("foo%d" % i, v, q)], [text("v%d" % i)]) for i in range(k)]))
            yield repair(bad, clean_copy(bad))
    # junk, alone and next to malformed attributes
    for i in range(n * 4):
        d = doc_near(r)
        if r.random() < .4:
            d = inject(r, d, r.choice([1, 2]), 3, False)
        bad = copy.deepcopy(d)
        e = r.choice(list(elements(bad["r"])))
        e["s"] = False
        j = r.choice(BROKEN)
        e["c"].insert(r.randint(0, len(e["c"])), junk(j))
        if j.startswith(("<!", "<?")):      # what comes later may complete it
            x = write_doc(bad)
            yield repair(raw(x), raw(clean_text(x)))
        else:
            yield repair(bad, clean_copy(d))
    for j in BROKEN:
        for pre, post in (("<math><mi>x</mi>", "<mo>+</mo></math>"), ("<math><mi>", "</mi></math>"), ("<math foo><mi a=b>x</mi>", "</math>"),
                          ("<div><math><mi>x</mi></math>", "<math/></div>")):
            yield repair(raw(pre + j + post), raw("<math/>"))
    for j in ["<math/>", "x", "<", "&amp;", "<math", "</math>", "<?xml version=\"1.0\"?>", "<![CDATA[x]]>", "<mi foo>y</mi>", "&#120;"]:
        yield repair(raw("<math><mi>x</mi></math>" + j), raw("<math/>"))
        yield repair(raw(j + "<math><mi>x</mi></math>"), raw("<math/>"))
    for j in ["", " ", "x", "\n", "<!-- c -->", "<?pi?>", "&lt;"]:
        yield repair(raw(j), raw("<math/>"))
    # undeclared entities, without and with a document type declaration
    for dt in ["", "<!DOCTYPE math>", PUBLIC]:
        for j in ["&nbsp;", "&alpha;"]:
            yield repair(raw(dt + "<math><mi>a" + j + "b</mi></math>"), raw("<math/>"))
    # every truncation of some documents
    for k in range(max(3, n // 40)):
        x = write_doc(doc_near(r))
        if len(x) < 400:
            for i in range(len(x)):
                yield repair(raw(x[:i]), raw(clean_text(x[:i])))
    # damaged texts
    for i in range(n * 20):
        d = doc_near(r)
        if r.random() < .3:
            d = inject(r, d, 1, 2, False)
        x = write_doc(d)
        for _ in range(20):
            y = mutate(r, x)
            if len(y) < 600:
                yield repair(raw(y), raw(clean_text(y)))
                break

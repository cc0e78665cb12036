"""Seeded generators of element trees (abstract inputs)."""
import copy, json, os, random

from docs import T, mi, mo, mn, mtext, math, mrow, size, walk

HERE = os.path.dirname(os.path.abspath(__file__))
DATA = json.load(open(os.path.join(os.path.dirname(HERE), "spec", "symbols.json"), encoding="utf-8"))

VARIANTS = ["bold", "italic", "bold-italic", "double-struck", "bold-fraktur", "script",
            "bold-script", "fraktur", "sans-serif", "bold-sans-serif", "sans-serif-italic",
            "sans-serif-bold-italic", "monospace"]
ODD_VARIANTS = ["normal", "", "Bold", "BOLD", "bold ", " bold", "boldface", "mathvariant", "initial",
                "tailed", "looped", "stretched", "italic-bold", "bolditalic", "bold italic", "x"]
NOTATIONS = ["actuarial", "radical", "box", "roundedbox", "circle", "left", "right", "top", "bottom",
             "updiagonalstrike", "downdiagonalstrike", "updiagonalarrow", "verticalstrike",
             "horizontalstrike", "madruwb", "phasorangle", "longdiv"]
ODD_NOTATIONS = [None, "", "notation", "Box", "BOX", "left right", "box circle", "foo", "top ",
                 " top", "updiagonal", "strike", "radical box", "longdiv top", "madrub"]
FENCES = [None, "", "(", ")", "[", "]", "{", "}", "|", "||", "⟨", "⟩", "<", ">", "&", ".", "/", "‖",
          "⌊", "⌋", "open", "close", " ", "((", "[[", "x", "'", '"', "a b", "|||", ":", "𝔄"]
FENCE_PAIRS = [("(", ")"), ("[", "]"), ("{", "}"), ("|", "|"), ("||", "||"), ("", ""), (None, None),
               ("(", None), (None, ")"), ("(", "]"), ("[", ")"), ("{", None), ("{", ""), ("", "}"),
               ("|", "||"), ("||", "|"), ("|", None), ("⟨", "⟩"), ("[", "["), ("(", "("), ("]", "["),
               (")", "("), ("{", "{"), ("<", ">"), ("open", "close"), (" ", " "), ("( ", " )"),
               ("((", "))"), ("[[", "]]"), ("|||", "|||"), ("‖", "‖"), ("{", "|"), ("[", "}"),
               (".", "|"), ("|", "."), ("/", "/"), ("x", "x"), ("\\{", "\\}"), ("close", "open")]
SEPARATORS = [None, "", ",", ";", ";,", ";;,", ",;", "|", "abc", "  ", " ", ", ", "separators", ",;.:!",
              "&", "<", "'", '"', "∣", "𝔄;", "^", "_", "/", "\\", "....", ";,|", "+-*", "{", "}", "12"]
BEVELLED = [None, "true", "false", "", "bevelled", "1", "0", "FALSE", "TRUE", "True", " false", "no"]
ACTIONS = [None, "toggle", "", "statusline", "tooltip", "input", "actiontype", "Toggle", "highlight",
           "toggle ", "toggletip", "TOGGLE"]
UNKNOWN = ["mstyle", "mtd", "semantics", "annotation", "annotation-xml", "mspace", "mglyph", "none",
           "mlabeledtr", "mprescripts", "ms", "mstack", "mlongdiv", "mscarries", "maligngroup", "foo",
           "MI", "Mo", "MFRAC", "mi2", "mii", "m", "msup2", "munderx", "xmunder", "mrows", "mtables",
           "mtrx", "Math", "maths", "amath", "mmath", "void", "math-ml", "p", "div", "span", "mtext2",
           "mphantoms", "mactions", "mencloses", "mfence", "msqrtt", "a.b", "_x", "élan"]
GROUPS = ["mrow", "mpadded"] + UNKNOWN
NOISE_ATTRS = [("id", "x1"), ("class", "c d"), ("style", "color: red; a='b'"), ("displaystyle", "true"),
               ("stretchy", "false"), ("lspace", "0em"), ("mathcolor", "#ff0000"), ("href", "http://a/b?c=d&e=f"),
               ("xmlns", "http://www.w3.org/1998/Math/MathML"), ("columnalign", "left right"),
               ("data-x", "<mi>y</mi>"), ("title", "a > b"), ("form", "prefix"), ("accent", "true"),
               ("selection", "2"), ("linethickness", "0"), ("rowspan", "2"), ("name", "name"), ("value", ""),
               ("innerTable", "yes"), ("innerTable", "innerTable"), ("t", "α β"), ("dir", "rtl"), ("é", "è"),
               ("xml:lang", "en"), ("children", "3"), ("text", "text"), ("tag", "mfrac"), ("scriptlevel", "+1")]

# Attributes of MathML, HTML, ARIA and of what writes them, that mean nothing
# to the converter (values: the usual ones)
STD_ATTRS = [(n, v) for n, vs in {
    "aria-hidden": ["true", "false"], "aria-label": ["x squared"], "role": ["math", "presentation"], "hidden": ["", "hidden", "true"],
    "style": ["display:none", "display: none;", "visibility:hidden", "text-align: left", "color:red;font-weight:bold", "font-style: italic"],
    "class": ["hidden", "MathJax", "katex-mathml", "MJX-TeXAtom-ORD", "mord", "bold", "toggle"], "id": ["math", "MathJax-Element-1", "1"],
    "title": ["bold", "x^2"], "lang": ["en", "de"], "dir": ["rtl", "ltr"], "tabindex": ["0"], "nonce": ["a"], "slot": ["x"], "is": ["x"],
    "data-mjx-texclass": ["ORD", "OP", "OPEN"], "data-semantic-type": ["infixop"], "data-latex": ["\\frac", "x_1"], "data-mathml": ["<math/>"],
    "display": ["block", "inline", "none"], "mode": ["display"], "alttext": ["x", "\\alpha", "{"], "altimg": ["a.png"], "overflow": ["scroll"],
    "encoding": ["application/x-tex", "MathML-Presentation"], "definitionURL": ["http://x/"], "type": ["text", "hidden"], "cd": ["x"],
    "displaystyle": ["true", "false"], "scriptlevel": ["0", "+1", "2"], "scriptminsize": ["8pt"], "scriptsizemultiplier": ["0.7"],
    "mathcolor": ["red", "#fff", "transparent"], "mathbackground": ["white"], "mathsize": ["big", "small", "0"], "color": ["red"],
    "background": ["blue"], "fontfamily": ["serif"], "fontweight": ["bold", "normal"], "fontstyle": ["italic", "normal"], "fontsize": ["0"],
    "form": ["prefix", "infix", "postfix"], "fence": ["true", "false"], "separator": ["true", ";"], "lspace": ["0", "5em"], "rspace": ["0"],
    "stretchy": ["true", "false"], "symmetric": ["true"], "largeop": ["true", "false"], "movablelimits": ["true", "false"],
    "minsize": ["1"], "maxsize": ["2", "infinity"], "accent": ["true", "false"], "accentunder": ["true", "false"],
    "linethickness": ["0", "0pt", "thin", "thick", "2"], "numalign": ["left"], "denomalign": ["right"], "align": ["center", "axis", "top", "left"],
    "subscriptshift": ["0"], "superscriptshift": ["0"], "width": ["0", "1em"], "height": ["0", "1em"], "depth": ["0"], "voffset": ["0"],
    "linebreak": ["newline", "goodbreak"], "indentalign": ["left"], "spacing": ["1"], "groupalign": ["left"], "alignmentscope": ["true"],
    "columnalign": ["left", "left right", "center"], "rowalign": ["top"], "columnlines": ["solid", "none", "solid none"], "rowlines": ["solid", "none"],
    "frame": ["solid", "none"], "columnspacing": ["0"], "rowspacing": ["0"], "columnwidth": ["auto"], "framespacing": ["0"],
    "equalrows": ["true"], "equalcolumns": ["true"], "side": ["right"], "minlabelspacing": ["0"], "columnspan": ["0", "1", "2"], "colspan": ["2"],
    "rowspan": ["1", "2"], "crossout": ["true"], "selection": ["1", "2", "9"], "dmode": ["x"], "lquote": ["<"], "rquote": [">"],
    "index": ["1"], "charalign": ["left"], "length": ["2"], "position": ["1"], "edge": ["left"], "shift": ["1"], "src": ["a.png"], "alt": ["x"],
    "notations": ["box"], "Notation": ["circle"], "Open": ["["], "OPEN": ["["], "close2": ["]"], "delimiters": ["()"], "left": ["("], "right": [")"],
    "opening": ["["], "closing": ["]"], "bevel": ["true"], "Bevelled": ["true"], "action": ["toggle"], "actionType": ["toggle"],
    "Mathvariant": ["bold"], "math-variant": ["bold"], "mathVariant": ["script"], "variant": ["bold"], "intent": ["power($a,$b)"], "arg": ["a"],
    "xml:space": ["preserve", "default"], "xml:id": ["x"], "xml:base": ["http://x/"], "xref": ["a"], "other": ["x"],
    "bold": ["true"], "name": ["alpha", "mi"], "value": ["x", "alpha"], "count": ["0"], "length2": ["0"], "empty": ["true"], "parent": ["math"],
    "text": ["x"], "content": ["x"], "mi": ["x"], "math": ["math"], "none": ["none"], "open2": ["("], "innertable": ["true"], "inner-table": ["1"],
    "isInnerTable": ["true"], "index2": [""], "unicode": ["α", "𝔄"], "u": [" "], "v": ["  a  b "], "w": ["a=b c='d'"],
}.items() for v in vs]

LETTERS = list("abcxyznmkRLBVQ")
WORDS = ["ab", "sin", "cos", "lim", "log", "max", "foo", "xy", "ABC", "dx", "mod", "alpha", "word", "Q7",
         "frac", "left", "text", "begin", "none", "mi", "math", "true", "0x", "None", "null", "False"]
NUMS = ["0", "1", "2", "12", "3.14", "1,000", "-5", "00", "1e5", "123456789012345678901234567890", "½", "²", "①",
        "x1", "0.0", "10%"]
OPS = ["+", "-", "=", "(", ")", "[", "]", "{", "}", "|", "||", "<", ">", "&", ",", ";", ".", "!", "*", "/", ":",
       "^", "_", "~", "'", '"', "#", "%", "$", "@", "?", "\\", "`", "->", "<=", ">=", ":=", "!=", "++", "...", "mod",
       "lim", "sup", "∑", "∫", "→", "×", "⋅", "≤", "≥", "∈", "∞", "−", "±", "∂", "⏞", "⏟", "¯", "ˆ", "\u00a0", "&nbsp;"]
ODD = ["", " ", "\t", "\u00a0", "a b", "a  b", " a ", "é", "ß", "漢", "字", "𝔄", "😀", "ｱ", "a\u0301", "\u200b",
       "\u2061", "\u2062", "\u2063", "x'", "x′", "&", "<", ">", "&amp;", "<mi>", "]]>", "a&b", "--", "?>", "\u2028x",
       "a\u00a0b", "\u3000", "’", "Ω", "ﬁ", "\ufeffa", "א", "\U0010ffff", "\ud7ff", "\uffee", "xml", "a\tb"]
TEXTS = ["if", "if x", "and then", " a ", "x-1", "a, b", "50%", "é", "naïve", "α", "αβ", "a α b", "1.5", "", " ",
         "(a)", "a  b", "a\u00a0b", "\u00a0a\u00a0", "a-", "-a", "--", "a--b", "A1 B2", "x₁", "½", "漢字", "a漢b",
         "𝐀b", "😀 c", "&", "a<b", "a&b", "_", "^", "a_b", "a^2", "{", "a}", "\\", "a\\b", "$x$", "#1", "~", "a~b",
         "…", "wait…", "“q”", "it's", "a\tb", "a\u2003b", "a\u2028b", "É", "áéí", "a·b", "x→y", "∞", "m²", "ª"]

MARKUPLIKE = ["a<!--b-->c", "<!-- b -->", "<!--", "-->", "<?pi x?>", "<mi>x</mi>", "<mi/>", "</math>", "<math>", "&lt;", "&amp;lt;", "&#60;",
              "&#x3C;", "&nbsp;", "&&", "<<", ">>", "<a b=c>", "a=b", "x= y", " a=", "<a b>", "]]", "]]>", "<![CDATA[x", "<!DOCTYPE a>",
              "<a>b</a>", "1<2>3", "&#", "&;", "a&b;c", "'\"'", "<b c='d'/>", "%lt;", "\\n", "\\u0041", "{0}", "%s"]
TOKENS = ("mi", "mo", "mn", "mtext")
NAMED = sorted(set(DATA["symbols_named"]) | set(DATA["operators_named"]))
GLYPHS = sorted(set(DATA["symbols_glyph"]) | set(DATA["operators_glyph"]) | set(DATA["numbers"])
                | set(DATA["accented"]) | set(DATA["fonts"]))
TABLE_KEYS = [k for k in sorted(set(NAMED) | set(GLYPHS))
              if all(c in "\t\n\r" or ord(c) >= 32 for c in k)]

BINARY = ["mfrac", "mroot", "msup", "msub", "munder", "mover"]
TERNARY = ["msubsup", "munderover"]
CONSTRUCTS = ["mfrac", "mroot", "msup", "msub", "munder", "mover", "msubsup", "munderover",
              "mmultiscripts", "msqrt", "mfenced", "mtable", "menclose", "merror", "mphantom",
              "maction", "mrow", "mpadded", "unknown"]

FOCUS = {"C08": ["mfrac", "mfrac", "msqrt", "mroot"], "C09": ["msup", "msub", "msubsup"],
         "C10": ["mmultiscripts"], "C11": ["munder", "mover", "munderover"], "C12": ["mfenced"],
         "C13": ["mtable", "mfenced"], "C14": ["menclose"],
         "C15": ["mrow", "mpadded", "unknown", "mphantom", "merror", "maction"],
         "C16": ["mi", "mo", "mn"], "C17": ["mi"], "C18": ["mtext"]}


def opt(name, v):
    return [] if v is None else [(name, v)]


class Gen:
    def __init__(self, seed, focus=(), marks=False, tame=False, noise=0.15):
        self.r = random.Random(seed)
        self.focus, self.marks, self.tame, self.noise = list(focus), marks, tame, noise
        self.serial = 0

    # --- leaves -------------------------------------------------------------
    def mark(self):
        """A token text made of mark characters only (unique, or repeated)."""
        r = self.r
        if r.random() < .6:
            self.serial += 1
            return "Q%d" % self.serial
        return r.choice(["A", "7", "0", "X", "Y1", "00", "P P", "W", "A", "A", "1", "2", "12"])

    def leaf(self):
        r = self.r
        t = r.choices(["mi", "mo", "mn", "mtext"], [5, 3, 2, 1])[0]
        if self.focus and r.random() < .4:
            ts = [f for f in self.focus if f in TOKENS]
            if ts:
                t = r.choice(ts)
        if self.marks:
            n = T(t, x=self.mark())
        elif t == "mtext":
            n = T(t, x=self.text())
        else:
            pool = r.choices([LETTERS, WORDS, NUMS, OPS, ODD, GLYPHS, NAMED, MARKUPLIKE], [12, 4, 6, 8, 4, 8, 2, 1])[0]
            n = T(t, x=r.choice(pool))
        if self.tame:
            n["x"] = "".join(c for c in n["x"] if c not in "{}\\")
        if t in ("mi", "mtext") and r.random() < .25:
            n["a"].append(("mathvariant", r.choice(VARIANTS if r.random() < .8 else ODD_VARIANTS)))
        elif r.random() < .08:
            n["a"].append(("mathvariant", r.choice(VARIANTS)))
        return n

    def text(self):
        r = self.r
        if r.random() < .6:
            return r.choice(TEXTS)
        n = r.choice([1, 2, 3, 4, 5, 8, 13, 30])
        return "".join(r.choice(list("abXY019  -,.()é²α’漢") + ["𝐀", "\u00a0", "\t", "+", "ß", "_", "^", "%"])
                       for _ in range(n))

    # --- constructs ----------------------------------------------------------
    def some_attrs(self, n):
        r = self.r
        while r.random() < self.noise:
            a = r.choice(NOISE_ATTRS if r.random() < .5 else STD_ATTRS) if r.random() < .7 else r.choice([
                ("mathvariant", r.choice(VARIANTS)), ("open", r.choice("([{|")), ("close", r.choice(")]}|")),
                ("notation", r.choice(NOTATIONS)), ("separators", ";"), ("bevelled", "true"),
                ("actiontype", r.choice(["toggle", "tooltip"]))])
            if self.marks and a[0] in ("open", "close", "separators"):
                continue
            if all(b[0] != a[0] for b in n["a"]) and not (a[0] in SPECIAL.get(n["t"], ())):
                n["a"].insert(r.randint(0, len(n["a"])), a)
        return n

    def width(self, lo=0, hi=4):
        r = self.r
        if r.random() < .02:
            return r.choice([5, 6, 7, 8, 9, 10, 11, 12, 16, 20, 33])
        return r.randint(lo, hi)

    def fence(self, side):
        r = self.r
        v = r.choice(FENCES)
        if self.marks:
            v = r.choice([None, "", "(", "[", "|", "||", ")", "]"])
        if self.tame and v:
            v = v.replace("{", "(").replace("}", ")").replace("\\", "")
        return v

    def construct(self, t, kid):
        """An element of type t (with valid child count); kid() makes children."""
        r = self.r
        if t in TOKENS:
            n = self.leaf()
            n["t"] = t
            return self.some_attrs(n)
        if t in BINARY:
            n = T(t, kid(), kid())
            if t == "mfrac":
                n["a"] += opt("bevelled", r.choice(BEVELLED) if r.random() < .5 else None)
            if t in ("munder", "mover") and not self.marks and r.random() < .5:
                n["k"][1] = mo(r.choice("^¯ˆ⏞⏟_⎴⎵→"))
        elif t in TERNARY:
            n = T(t, kid(), kid(), kid())
        elif t == "mmultiscripts":
            n = T(t, kid(), *self.scripts(kid))
        elif t == "mfenced":
            if r.random() < .3:
                o, c = r.choice(FENCE_PAIRS)
                if self.marks or self.tame:
                    o, c = [None if v is None else "".join(x for x in v if x not in "{}\\x") for v in (o, c)]
            else:
                o, c = self.fence(0), self.fence(1)
            s = r.choice(SEPARATORS)
            if self.marks:
                s = r.choice([None, "", ",", ";", ";,|"])
            if self.tame and s:
                s = "".join(x for x in s if x not in "{}\\")
            n = T(t, *[kid() for _ in range(self.width(0, 5))])
            n["a"] += opt("open", o) + opt("close", c) + opt("separators", s)
            r.shuffle(n["a"])
        elif t == "mtable":
            n = T(t, *[self.row(kid) for _ in range(self.width(0, 3))])
        elif t == "menclose":
            n = T(t, *[kid() for _ in range(self.width(0, 3))])
            n["a"] += opt("notation", r.choice(NOTATIONS if r.random() < .8 else ODD_NOTATIONS))
        elif t == "maction":
            n = T(t, *[kid() for _ in range(self.width(0, 3))])
            n["a"] += opt("actiontype", r.choice(ACTIONS))
        elif t == "unknown":
            n = T(r.choice(UNKNOWN), *[kid() for _ in range(self.width(0, 3))])
        else:
            n = T(t, *[kid() for _ in range(self.width(0, 4))])
        if t in ("mrow", "unknown", "mphantom", "msqrt", "mfenced", "mpadded") and r.random() < .06:
            n["x"] = r.choice(["stray", "x", "Q9" if not self.marks else "9", "α"])
        return self.some_attrs(n)

    def row(self, kid):
        r = self.r
        if r.random() < .06:
            return kid()
        cells = []
        for _ in range(self.width(0, 3)):
            u = r.random()
            cells.append(kid() if u < .1 else T("mtd") if u < .2 else
                         T("mtd", *[kid() for _ in range(r.choice([1, 1, 1, 2]))]))
        return self.some_attrs(T("mtr", *cells))

    def scripts(self, kid):
        """Children of mmultiscripts after the base (at least two)."""
        r = self.r
        ks = []
        def pairs(n):
            return [T("none") if r.random() < .3 else kid() for _ in range(2 * n)]
        u = r.random()
        if u < .2:
            ks = pairs(1)
        elif u < .4:
            ks = pairs(1) + [T("mprescripts")] + pairs(1)
        elif u < .55:
            ks = [T("mprescripts")] + pairs(1)
        elif u < .7:
            ks = pairs(r.randint(0, 2)) + [T("mprescripts")] + pairs(r.randint(0, 3))
        else:
            ks = [r.choice([T("none"), T("mprescripts"), kid(), kid()]) for _ in range(r.randint(2, 8))]
        while len(ks) < 2:
            ks.append(kid())
        return ks

    # --- trees ---------------------------------------------------------------
    def tree(self, budget):
        """A random valid expression of about at most this many nodes."""
        r = self.r
        left = [budget]
        def make(d):
            left[0] -= 1
            if left[0] <= 0 or d <= 0 or r.random() < .3:
                return self.leaf()
            if self.focus and r.random() < .45:
                t = r.choice(self.focus)
            else:
                t = r.choice(CONSTRUCTS)
            return self.construct(t, lambda: make(d - 1))
        return make(r.choice([1, 2, 3, 4, 6, 9]))

    def formula(self, budget=30):
        if self.r.random() < .05:
            import corpus
            return copy.deepcopy(self.r.choice(corpus.TREES))
        n = self.r.choice([1, 1, 1, 2, 3])
        m = math(*[self.tree(budget // n) for _ in range(n)])
        return self.some_attrs(m)

    def chain(self, d):
        """A chain of d nested constructs with small siblings."""
        r = self.r
        n = self.leaf()
        for _ in range(d):
            t = r.choice(self.focus) if self.focus and r.random() < .4 else r.choice(CONSTRUCTS)
            if t in ("mphantom",) + TOKENS:
                t = "mrow"
            n = self.wrap(t, n)
        return n

    def wrap(self, t, inner):
        """A construct of type t with inner in a random (mostly visible) place."""
        r = self.r
        c = self.construct(t, self.leaf)
        slots = [(m, i) for m in walk(c) for i in range(len(m["k"])) if m["k"][i]["t"] not in ("mtr", "mprescripts")]
        if not slots:
            c["k"] = [inner]
        else:
            m, i = r.choice(slots[:4])
            m["k"][i] = inner
        return c


SPECIAL = {"mfenced": ("open", "close", "separators"), "menclose": ("notation",), "mfrac": ("bevelled",),
           "maction": ("actiontype",), "mi": ("mathvariant",), "mtext": ("mathvariant",)}


# --- contexts: one-hole constructs, every position of every construct --------
A, B, C, D = mi("p"), mi("r"), mi("s"), mi("t")
CONTEXTS = {
    "math": lambda n: n,
    "math-first": None, "math-last": None,
    "mrow": lambda n: mrow(n), "mrow-first": lambda n: mrow(n, A), "mrow-mid": lambda n: mrow(A, n, B),
    "mrow-last": lambda n: mrow(A, B, n), "twice": lambda n: mrow(n, mo("+"), n),
    "mpadded": lambda n: T("mpadded", n), "mstyle": lambda n: T("mstyle", n, A),
    "semantics": lambda n: T("semantics", n, T("annotation", x="note")), "unknown": lambda n: T("foo", A, n),
    "frac-num": lambda n: T("mfrac", n, A), "frac-den": lambda n: T("mfrac", A, n),
    "bev-num": lambda n: T("mfrac", n, A, bevelled="true"), "bev-den": lambda n: T("mfrac", A, n, bevelled="true"),
    "sqrt": lambda n: T("msqrt", n), "sqrt-2": lambda n: T("msqrt", A, n),
    "root-base": lambda n: T("mroot", n, A), "root-index": lambda n: T("mroot", A, n),
    "sup-base": lambda n: T("msup", n, A), "sup": lambda n: T("msup", A, n),
    "sub-base": lambda n: T("msub", n, A), "sub": lambda n: T("msub", A, n),
    "ss-base": lambda n: T("msubsup", n, A, B), "ss-sub": lambda n: T("msubsup", A, n, B),
    "ss-sup": lambda n: T("msubsup", A, B, n), "sup-base-row": lambda n: T("msup", mrow(A, n), B),
    "under-base": lambda n: T("munder", n, A), "under": lambda n: T("munder", A, n),
    "over-base": lambda n: T("mover", n, A), "over": lambda n: T("mover", A, n),
    "uo-base": lambda n: T("munderover", n, A, B), "uo-under": lambda n: T("munderover", A, n, B),
    "uo-over": lambda n: T("munderover", A, B, n), "hat-base": lambda n: T("mover", n, mo("^")),
    "ms-base": lambda n: T("mmultiscripts", n, A, B), "ms-sub": lambda n: T("mmultiscripts", A, n, B),
    "ms-sup": lambda n: T("mmultiscripts", A, B, n),
    "ms-presub": lambda n: T("mmultiscripts", A, B, C, T("mprescripts"), n, D),
    "ms-presup": lambda n: T("mmultiscripts", A, B, C, T("mprescripts"), D, n),
    "ms-presub2": lambda n: T("mmultiscripts", A, T("mprescripts"), n, D),
    "fenced": lambda n: T("mfenced", n), "fenced-first": lambda n: T("mfenced", n, A),
    "fenced-last": lambda n: T("mfenced", A, B, n, open="[", close="]", separators=";"),
    "cell": lambda n: T("mtable", T("mtr", T("mtd", n))),
    "cell-2": lambda n: T("mtable", T("mtr", T("mtd", A), T("mtd", n)), T("mtr", T("mtd", B), T("mtd", C))),
    "cell-row2": lambda n: T("mtable", T("mtr", T("mtd", A)), T("mtr", T("mtd", n, B))),
    "matrix": lambda n: T("mfenced", T("mtable", T("mtr", T("mtd", n), T("mtd", A))), open="[", close="]"),
    "inner-table": lambda n: T("mtable", T("mtr", T("mtd", T("mtable", T("mtr", T("mtd", n)))))),
    "cases": lambda n: T("mfenced", T("mtable", T("mtr", T("mtd", n))), open="{", close=""),
    "enclose": lambda n: T("menclose", n), "enclose-box": lambda n: T("menclose", A, n, notation="box"),
    "strike": lambda n: T("menclose", n, notation="updiagonalstrike"),
    "error": lambda n: T("merror", n), "error-2": lambda n: T("merror", A, n),
    "toggle": lambda n: T("maction", A, n, actiontype="toggle"), "action": lambda n: T("maction", n, A, actiontype="tooltip"),
    "bold": lambda n: T("mstyle", n, mathvariant="bold"),
}


def in_context(name, n):
    if name == "math-first":
        return math(n, A)
    if name == "math-last":
        return math(A, mo("+"), n)
    return math(CONTEXTS[name](n))


# --- operands of different kinds ----------------------------------------------
OPERANDS = [
    mi("a"), mi("ab"), mn("2"), mn("12"), mo("+"), mi("α"), mi("𝔄"), mi("漢"), mi(""), mn("0"), mo("("), mi("é"),
    mi("a", mathvariant="bold"), mtext("if x"), mtext(""), mtext("é"), T("mspace"), T("none"), T("mphantom", mi("a")),
    mrow(), mrow(mi("a")), mrow(mi("ab")), mrow(mi("a"), mi("b")), mrow(T("mphantom", mi("a")), T("mphantom")),
    mrow(mi("a"), T("mphantom")), mrow(T("mspace"), mi("a")), mrow(mi("a"), mo("+"), mn("1")),
    mrow(mrow(mi("a"), mi("b"))), T("mstyle", mi("a"), mi("b")), T("foo", x="x"), mrow(mi(""), mi("")),
    mrow(T("mspace"), T("mspace")),
    T("mfrac", mi("a"), mi("b")), T("mfrac", mi("a"), mi("b"), bevelled="true"), T("msqrt", mi("a"), mi("b")),
    T("msqrt"), T("mroot", mi("a"), mi("b")), T("msup", mi("a"), mi("b")),
    T("msup", mrow(mi("a"), mi("b")), mi("c")), T("msub", mi("a"), mi("b")), T("msubsup", mi("a"), mi("b"), mi("c")),
    T("munder", mi("a"), mi("b")), T("mover", mi("a"), mo("^")), T("mover", mi("a"), mo("→")),
    T("munderover", mo("∑"), mi("a"), mi("b")), T("mmultiscripts", mi("a"), mi("b"), mi("c")),
    T("mfenced", mi("a"), mi("b")), T("mfenced"), T("mfenced", mi("a"), open="|", close="|"),
    T("mfenced", T("mtable", T("mtr", T("mtd", mi("a")))), open="[", close="]"),
    T("mtable", T("mtr", T("mtd", mi("a")), T("mtd", mi("b")))), T("mtable"),
    T("menclose", mi("a")), T("menclose", mi("a"), mi("b"), notation="box"), T("merror", mi("a")),
    T("maction", mi("a"), mi("b")), T("maction"), T("maction", mi("a"), mi("b"), actiontype="tooltip"),
    mi("lim"), mo("lim"), mi("a b"), mo("\u00a0"), mn("½"), mi("∞"), mo("^"), mo("¯"), mo("⏞"), mo("_"),
]
ACCENT_SCRIPTS = [mo(x) for x in "^ˆ¯⏞⏟⎴⎵⏜⏝⏠⏡‾~˜˙¨→⃗_-.̂"] + [
    mi("^"), mi("¯"), mn("^"), mrow(mo("^")), mrow(mo("^"), mo("^")), mtext("^"), mrow(mrow(mo("¯"))), T("mstyle", mo("⏞")),
    mo("&#x302;"), mo("hat"), mo("\\hat"), mi("\\hat"), mi("\\bar"), mn("\\underbrace"), mi("\\overbrace"), mi("\\vec"),
    mo("\\hat "), mrow(mo("^"), T("mphantom")), mi("\\hat", mathvariant="bold"), T("mpadded", mo("⏟")), T("mspace"), mrow()]

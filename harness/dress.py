"""Writing a tree with insignificant variation: other white space, comments,
processing instructions, CDATA, references, quotes, attribute order, name
prefix, XML declaration.  The result reads as the same tree."""
import re

from docs import attr, comment, doc, doctype, elem, entity, instr, text, walk, write

COMMENTS = ["", " c ", " <mi>x</mi> ", "a > b & c", " multi\nline ", "'", '"', " <math> ", "=", " a= ", "α", " ]]> "]
INSTRS = ["pi", "php x y ", "xml-stylesheet href='a.css'", "pi <mi>x</mi>", "pi a=b"]
PROLOGS = [[], [], [], [instr('xml version="1.0"')], [instr('xml version="1.0" encoding="UTF-8"')],
           [instr("xml version='1.0' encoding='utf-8' standalone='yes'")]]
DOCTYPES = ['math', 'math PUBLIC "-//W3C//DTD MathML 2.0//EN" "http://www.w3.org/Math/DTD/mathml2/mathml2.dtd"', "html"]
# (declarations that say nothing)
SUBSETS = ["<!-- c -->", "<!ELEMENT math ANY>", "<?pi x?>", "<!ATTLIST mi mathvariant CDATA #IMPLIED>", "<!-- <!ENTITY al 'x'> -->", "\n", " ", "\t",
           "<!NOTATION n SYSTEM 'x'>", "<!ENTITY % p 'q'>", "<!ENTITY unused '<mi>z</mi>'>", "<!ENTITY other \"]>\">"]
ENTITIES = ["al", "x1", "amp2", "nbsp", "alpha", "a-b", "\u00e9", "_e", "math", "mi", "InvisibleTimes", "Sum", "e.f", "x:y"]
TOKENS = ("mi", "mo", "mn", "mtext")


class Dress:
    def __init__(self, r, ws=.3, extra=.12, refs=.2, quotes=.3, order=True, prefix=0.0, selfclose=.5, comments=True, entities=0.0):
        self.r, self.ws, self.extra, self.refs, self.quotes = r, ws, extra, refs, quotes
        self.entities, self.ents, self.parts = entities, {}, []
        self.order, self.prefix, self.selfclose, self.comments = order, prefix, selfclose, comments

    def blank(self, least=0):
        """White space: blanks, tabs and line breaks."""
        r = self.r
        if r.random() >= self.ws:
            return " " * least
        n = max(least, r.choice([1, 1, 2, 3, 5]))
        return "".join(r.choice([" ", " ", "\n", "\r\n", "\r", "\t", "\n  "]) for _ in range(n))

    def extras(self):
        """Comments and processing instructions."""
        r = self.r
        out = []
        while r.random() < self.extra:
            out.append(comment(r.choice(COMMENTS)) if r.random() < .6 else instr(r.choice(INSTRS)))
        return out

    def reference(self, c):
        v = self.r.random()
        names = {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "'": "&apos;"}
        return (names[c] if c in names and v < .4 else
                "&#x%X;" % ord(c) if v < .6 else "&#x%x;" % ord(c) if v < .7 else "&#%d;" % ord(c) if v < .95 else "&#%06d;" % ord(c))

    def with_entities(self, s):
        """The text with references to entities, or None."""
        known = [(n, x) for n, x in self.ents.items() if x and x in s]
        if not known:
            return None
        n, x = self.r.choice(known)
        a, b = s.split(x, 1)
        return [self.reference(c) if c in "&<>\"'" else c for c in a] + ["&" + n + ";"] + [self.reference(c) if self.r.random() < .3 or c in "&<>\"'" else c for c in b]

    def value(self, a):
        """An attribute value, some of it as references."""
        r, v = self.r, "".join(a["v"])
        y = self.with_entities(v) if self.ents and r.random() < .5 else None
        if y is None and r.random() < self.refs and not re.search("[\n\r]", v):
            p = r.choice([.3, 1])
            y = [self.reference(c) if r.random() < p or c in "&<>\"'\t" else c for c in v]
        if y is not None:
            a["y"] = y
        return a

    def chunk(self, s):
        """A piece of text, written in one of the ways there are."""
        r = self.r
        u = r.random()
        if self.ents and u < .5:
            y = self.with_entities(s)
            if y:
                return text(s, "ref", y)
        if u < self.refs / 2 and "]]>" not in s:
            return text(s, "cdata")
        if u < self.refs and s:
            return text(s, "ref", [self.reference(c) for c in s])
        return text(s)

    def pieces(self, s):
        """A text split into pieces with comments in between."""
        r = self.r
        out = []
        while s:
            if r.random() < self.extra * 2:
                k = r.randint(1, len(s))
            else:
                k = len(s)
            # a space may be written as a line break
            piece = s[:k]
            c = self.chunk(piece)
            if c["h"] != "ref":
                c["x"] = [r.choice(["\n", "\r\n", "\r"]) if x == " " and r.random() < self.ws / 3 else x for x in c["x"]]
                c["x"] = [y for x in c["x"] for y in x]
            out.append(c)
            s = s[k:]
            if s:
                out += self.extras()
        return out

    def element(self, n):
        r = self.r
        attrs = [attr(a, v, "s" if r.random() < self.quotes else "d", self.blank(1)) for a, v in n["a"]]
        for a in attrs:
            self.value(a)
            if r.random() < self.ws / 4:
                a["e"] = [list(self.blank()), list(self.blank())]
        if self.order:
            r.shuffle(attrs)
        body = []
        def space():
            b = self.blank()
            return ([text(b)] if b else []) + self.extras()
        if n["x"] or n["k"] or r.random() < .3:
            body += space()
        body += self.pieces(n["x"])
        if n["x"]:
            body += space()
        for c in n["k"]:
            e = self.element(c)
            if self.ents and len(self.parts) < 3 and r.random() < .15:
                more = [text(self.blank()), e] if r.random() < .3 else [e]
                self.parts.append([i for i in more if i["k"] != "t" or i["x"]])
                e = entity("part%d" % len(self.parts), *self.parts[-1])
            body.append(e)
            body += space()
        p = "mml:" if r.random() < self.prefix else ""
        return elem(n["t"], attrs, body, p, self.blank(), not body and r.random() < self.selfclose)

    def subset(self):
        """The internal subset of the document type declaration."""
        r = self.r
        out = []
        def literal(x):
            return '"' + x.replace("&", "&#38;").replace("%", "&#37;").replace('"', "&#34;") + '"'
        for n, x in self.ents.items():
            x = "".join("&#38;#%d;" % ord(c) if c in "<&>" else c for c in x)
            x = x.replace("%", "&#37;")
            q = r.choice([q for q in "\"'" if q not in x] or [None])
            if q is None:
                x, q = x.replace('"', "&#34;"), '"'
            out.append("<!ENTITY %s %s%s%s>" % (n, q, x, q))
        for i, items in enumerate(self.parts):
            out.append("<!ENTITY part%d %s>" % (i + 1, literal("".join(map(write, items)))))
        r.shuffle(out)
        more, say = [], SUBSETS[:]
        for x in out:       # (each once: minidom asserts that an element is declared once)
            more += [x] + ([say.pop(r.randrange(len(say)))] if r.random() < .4 else [])
        return " [" + r.choice(["", "\n", " "]) + "".join(more) + r.choice(["]", "] ", "]\n"])

    def document(self, n):
        r = self.r
        if r.random() < self.entities:
            texts = [x for m in walk(n) for x in [m["x"]] + [v for _, v in m["a"]] if x]
            for name in r.sample(ENTITIES[:-1], r.choice([1, 2, 3])):
                x = r.choice(texts) if texts else "q"
                i, j = sorted((r.randrange(len(x) + 1), r.randrange(len(x) + 1)))
                x = r.choice([x, x[i:j], x[i:i + 1]])
                if not re.search("[\n\r\t]", x):
                    self.ents[name] = x
        b = [dict(i) for i in r.choice(PROLOGS)]
        if b and r.random() < .5 or r.random() < self.ws / 2:
            b = [text(self.blank())] + b if r.random() < .5 else b
            b = [i for i in b if i["k"] != "t" or i["x"]]
        if b and b[-1]["k"] == "p":
            b.append(text("\n"))
        b += self.extras()
        root = self.element(n)
        if self.ents or r.random() < self.extra / 2:
            b += [doctype(r.choice(DOCTYPES) + (self.subset() if self.ents else "")), text(self.blank())]
            b = [i for i in b if i["k"] != "t" or i["x"]] + self.extras()
        a = self.extras()
        if r.random() < self.ws:
            a.append(text("\n"))
        return doc(root, b, a)

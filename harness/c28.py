"""C28: conversions and the world around them (World.tla)."""
import copy, json, os, random, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

import corpus, damage, gen, real, tlc
from core import MachineryError
from docs import T, elem, math, mi, mo, plain, plain_doc, raw, write_doc
from gen import CONTEXTS, Gen, in_context
from produce import dressed, seed, zoo

REF = "@ROOT@"      # where documents refer to; replaced by a scratch directory


def formula(r):
    return re.sub("^<math", "<math", write_doc(plain_doc(Gen(seed(r)).formula(r.choice([3, 8, 20])))))


def place(r, name):
    return r.choice([name, REF + "/" + name, "file://" + REF + "/" + name, "./" + name, "../" + os.path.basename(REF) + "/" + name, "http://127.0.0.1:9/" + name,
                     "file:" + REF + "/" + name, "http://localhost:9/" + name, "//127.0.0.1:9/" + name, "file:///etc/hostname", "ftp://127.0.0.1:9/" + name])


def concrete(r, c):
    f = formula(r)
    q = r.choice("\"'")
    at = lambda n: q + place(r, n) + q
    if c == "plain":
        return r.choice([f, "<div>%s<p>%s</p></div>" % (f, formula(r)), write_doc(dressed(r, Gen(seed(r)).formula(10)))])
    if c == "entity":
        use = r.choice(["<math><mi>&e;</mi><mi>x</mi></math>", "<math><mrow>&e;</mrow></math>", "<math><mtext>a &e; b</mtext></math>", "<math><mi>x</mi></math>",
                        "<math>&e;<mi>a</mi>&e;</math>", "<div>&e;<math><mi>x</mi></math></div>", "<math><mfrac><mi>&e;</mi><mn>&e;</mn></mfrac></math>"])
        pub = r.choice(["SYSTEM ", "PUBLIC 'p' "])
        more = r.choice(["", "<!ENTITY f '&e;'>", "<!ENTITY g 'text'>", "<!NOTATION n SYSTEM %s><!ENTITY u SYSTEM %s NDATA n>" % (at("x.css"), at("ent.txt"))])
        return "<!DOCTYPE math [<!ENTITY e %s%s>%s]>%s" % (pub, at("ent.txt"), more, use)
    if c == "doctype":
        return r.choice(["<!DOCTYPE math SYSTEM %s>" % at("x.dtd"), "<!DOCTYPE math PUBLIC '-//W3C//DTD MathML 2.0//EN' %s>" % at("x.dtd"),
                         "<!DOCTYPE math PUBLIC '-//W3C//DTD MathML 3.0//EN' 'http://www.w3.org/Math/DTD/mathml3/mathml3.dtd'>",
                         "<?xml version='1.0' standalone='no'?><!DOCTYPE math SYSTEM %s [<!ENTITY k 'k'>]>" % at("x.dtd")]) + f
    if c == "parameter":
        return "<!DOCTYPE math [<!ENTITY %% p SYSTEM %s>%%p;]>%s" % (at("p.ent"), f)
    if c == "linked":
        return r.choice(["<?xml-stylesheet href=%s type='text/xsl'?>" % at("x.xsl") + f, "<html><head><link rel='stylesheet' href=%s/></head>%s</html>" % (at("x.css"), f),
                         "<div xmlns:xi='http://www.w3.org/2001/XInclude'><xi:include href=%s parse='text'/>%s</div>" % (at("inc.xml"), f),
                         "<math><mglyph src=%s alt='a'/><mi href=%s>x</mi></math>" % (at("inc.xml"), at("x.css")),
                         "<math xmlns=%s><mi>x</mi></math>" % at("mml"), "<math xml:base=%s altimg=%s><mi>x</mi></math>" % (at(""), at("mml")),
                         "<math xmlns:xsi='http://www.w3.org/2001/XMLSchema-instance' xsi:schemaLocation=%s><mi>y</mi></math>" % at("mml"),
                         "<math><semantics><mi>x</mi><annotation-xml src=%s/></semantics></math>" % at("inc.xml"),
                         place(r, "inc.xml"), "<math><mtext>%s</mtext></math>" % place(r, "inc.xml"), "<math><mi>${HOME} $HOME ~ %s</mi></math>" % place(r, "mml"),
                         "<math definitionURL=%s><mtext>`ls` $(ls) {HOME}</mtext></math>" % at("mml")])
    if c == "repairable":
        return f[:5] + r.choice([" a=1", " a=b c=d", " href=%s" % place(r, "x").replace("'", ""), " src=x"]) + f[5:]
    if c == "miscounted":
        tag, ks = r.choice([("mfrac", 1), ("mroot", 3), ("msup", 0), ("msubsup", 2), ("munderover", 4), ("mmultiscripts", 2), ("mover", 1), ("munder", 3), ("msub", 5)])
        return "<math>%s</math>" % ("<%s>%s</%s>" % (tag, "<mi>a</mi>" * ks, tag))
    return r.choice([f[:-3], f + "<", "<math><mi>x</math>", "", "x", "&e;", "<!DOCTYPE math [<!ENTITY e SYSTEM %s>]><math>&e;" % at("ent.txt"),
                     "<math><mi>&undefined;</mi></math>", "\x00", "<math a b><mi/></math>"])


CLASSES = ["plain", "entity", "doctype", "parameter", "linked", "repairable", "miscounted", "broken"]


class C28:
    def __init__(self, c):
        self.c, self.r = c, random.Random("C28/%s" % c.seed)
        self.root = tempfile.mkdtemp(prefix="mml-world-")

    def model(self, config, expect_violation=None):
        r = tlc.run("World.tla", config + ".cfg")
        if expect_violation:
            if expect_violation not in r.violated:
                raise MachineryError("the model does not show the defect it should\n" + r.out[-2000:])
        elif not r.finished:
            raise MachineryError("model checking failed\n" + r.out[-3000:])
        else:
            self.c.model_states += r.distinct
            self.c.model_transitions += r.generated
        self.c.models.append({"config": config, "states": r.distinct, "transitions": r.generated, "depth": r.depth,
                              "result": "violates %s, as it should" % expect_violation if expect_violation else "no error"})
        return [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'<<"BEHAVIOUR", "(.*)">>', r.out)]

    def run(self, i, steps, options=(), env=()):
        """A log of steps: ["world", files, settings] and ["call", document text]."""
        root = os.path.join(self.root, "w%d" % i)
        docs = list(dict.fromkeys(s[1].replace(REF, root).replace(os.path.basename(REF), "w%d" % i) for s in steps if s[0] == "call"))
        at = {x: k + 1 for k, x in enumerate(docs)}
        steps = [s if s[0] == "world" else ["call", at[s[1].replace(REF, root).replace(os.path.basename(REF), "w%d" % i)]] for s in steps]
        res = iter(real.run("world.py", {"root": root, "docs": docs, "steps": steps}, options=options, env=env))
        log = []
        for s in steps:
            if s[0] == "world":
                log.append({"e": "world", "files": s[1], "settings": s[2]})
            else:
                o, effects = next(res)
                log.append({"e": "return", "d": s[1], "out": {k: o[k] for k in ("ok", "tex", "cls")}, "effects": effects})
        return docs, log

    def judge(self, jobs, what, **kw):
        """Run jobs (lists of steps) at the same time, let TLC judge their logs."""
        with ThreadPoolExecutor(8) as ex:
            runs = list(ex.map(lambda p: self.run(p[0], p[1], **kw), enumerate(jobs)))
        # what the documents convert to, each in a process of its own, nothing around
        parts = [x for docs, _ in runs for x in docs]
        ref = {}
        for part, log in zip([parts[i::8] for i in range(8)], real.sessions([{"mode": "alone", "docs": parts[i::8]} for i in range(8)])):
            for x in log:
                if x[0] == "return":
                    ref[part[x[3] - 1]] = x[4]
        events = []
        for docs, log in runs:      # (one event for every 40 steps)
            for a in range(0, len(log), 40):
                l = copy.deepcopy(log[a:a + 40])
                world = next((x for x in reversed(log[:a + 1]) if x["e"] == "world"), None)
                if l[0]["e"] != "world" and world:
                    l.insert(0, world)
                used = sorted({x["d"] for x in l if x["e"] == "return"})
                for x in l:
                    if x["e"] == "return":
                        x["d"] = used.index(x["d"]) + 1
                xs = [docs[d - 1] for d in used]
                events.append({"clause": "world", "docs": [raw(x) for x in xs], "xml": xs, "out": [ref[x] for x in xs], "args": {"log": l, "what": what}})
        canaries = []
        for e in events[:6]:
            for spoil in (lambda x: x["out"].update(tex=x["out"]["tex"] + "+7"), lambda x: x["effects"].append("open x")):
                k = copy.deepcopy(e)
                spoil([x for x in k["args"]["log"] if x["e"] == "return"][-1])
                canaries.append(k)
        vs = self.c.judge(events + canaries, chunk=1500)
        if "ok" in vs[len(events):]:
            raise MachineryError("a corrupted log was accepted")
        self.c.canaries += len(canaries)
        k = self.c.by_clause.setdefault(what, {"ok": 0, "rejected": 0, "calls": 0})
        n = sum(x["e"] == "return" for e in events for x in e["args"]["log"])
        k["calls"] += n
        self.c.calls += n
        self.c.events += n
        self.c.distinct.update(hash(x) for e in events for x in e["xml"])
        for e, v in zip(events, vs):
            k["ok" if v == "ok" else "rejected"] += 1
            if v != "ok" and len(self.c.violations) < 3:
                self.report(e)
        if len(self.c.samples) < 8 and events:
            e = self.r.choice(events)
            self.c.samples.append({"clause": what, "xml": [x[:200] for x in e["xml"][:3]], "log": [[x["e"]] + [x[k] for k in ("files", "settings", "d", "effects") if k in x] for x in e["args"]["log"][:6]]})

    def report(self, e):
        world = None
        for x in e["args"]["log"]:
            if x["e"] == "world":
                world = x
            elif x["effects"] or any(x["out"][k] != e["out"][x["d"] - 1][k] for k in ("ok", "tex", "cls")):
                f = dict(e, xml=[e["xml"][x["d"] - 1]], out=[x["out"] | {"msg": "; ".join(x["effects"])}], docs=[e["docs"][x["d"] - 1]])
                note = "effects: %s; files: %s, settings: %s; otherwise %r" % (x["effects"], world and world["files"], world and world["settings"], e["out"][x["d"] - 1]["tex"])
                print("  " + note[:600])
                self.c.violations.append(self.c.report(f, note))
                return

    def behaviours(self, bs, share):
        r, jobs = self.r, [[] for _ in range(8)]
        for i, b in enumerate(r.sample(bs, min(len(bs), share))):
            jobs[i % 8] += [["world", x["files"], x["settings"]] if x["e"] == "world" else ["call", concrete(r, x["d"])] for x in b["log"]]
        self.judge(jobs, "behaviours of the model")

    def anything(self, n):
        """All kinds of documents, for what they do to the surroundings."""
        r = self.r
        docs = [write_doc(plain_doc(copy.deepcopy(t))) for t in corpus.TREES] + [write_doc(plain_doc(zoo(r))) for _ in range(3)]
        docs += [write_doc(plain_doc(in_context(c, copy.deepcopy(x)))) for c in sorted(CONTEXTS) for x in r.sample(gen.OPERANDS, 3)]
        docs += [write_doc(plain_doc(math(*[T(t, x=k) for t in gen.TOKENS]))) for k in r.sample(gen.TABLE_KEYS, min(len(gen.TABLE_KEYS), 3 * n))]
        docs += [write_doc(plain_doc(Gen(seed(r)).formula(r.choice([10, 30, 60])))) for _ in range(4 * n)]
        docs += [write_doc(dressed(r, Gen(seed(r)).formula(10))) for _ in range(n)]
        docs += [write_doc(d) for e in list(damage.c06(r, 20))[:4 * n] for d in e["docs"][:1]]
        docs += [concrete(r, c) for c in CLASSES for _ in range(n // 4)]
        docs += [write_doc(plain_doc(math(Gen(seed(r)).chain(d)))) for d in (20, 40, 60) for _ in range(6)]
        for v in gen.VARIANTS + gen.ODD_VARIANTS:
            docs.append(write_doc(plain_doc(math(*[T(t, x="a 1é", mathvariant=v) for t in gen.TOKENS]))))
        for v in gen.NOTATIONS + [v for v in gen.ODD_NOTATIONS if v]:
            docs.append(write_doc(plain_doc(math(T("menclose", mi("x"), notation=v)))))
        for a, v in gen.STD_ATTRS:
            docs.append(write_doc(plain_doc(math(T("mrow", mi("x"), **{a: v})))))
        r.shuffle(docs)
        jobs = [[] for _ in range(8)]
        for i, x in enumerate(docs):
            if i % 25 < 8:
                jobs[i % 8].append(["world", r.choice(["text", "markup", "nothing"]), r.choice(["usual", "other"])])
            jobs[i % 8].append(["call", x])
        self.judge([j for j in jobs], "all kinds of documents")

    def processes(self, n):
        r = self.r
        for opts, env in [(("-W", "error"), {}), (("-X", "dev"), {}), (("-s", "-S"), {}), (("-bb",), {"LC_ALL": "C"}), (("-O",), {"HOME": "/nonexistent", "PATH": "", "TMPDIR": "/nonexistent"})]:
            job = [["world", "text", "usual"]] + [["call", concrete(r, r.choice(CLASSES))] for _ in range(n)] + [["call", write_doc(plain_doc(zoo(r)))]]
            self.judge([job], "other processes", options=opts, env=env)


def check(c, budget):
    k = C28(c)
    thorough = c.tier == "thorough"
    try:
        k.model("World_check")
        k.model("World_resolving", "Closed")
        bs = k.model("World_history")
        while True:
            k.behaviours(bs, 2500 if not thorough else len(bs))
            k.anything(200 if not thorough else 1000)
            k.processes(60)
            c.replayed += min(len(bs), 2500) if not thorough else len(bs)
            if c.violations or c.seconds() > budget:
                return
    finally:
        shutil.rmtree(k.root, ignore_errors=True)

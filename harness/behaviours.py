"""Behaviours of the model (spec/MC.tla), replayed in the real library.

TLC explores the pipeline and the converter on every document of the property's
family and prints the complete behaviours.  Each is replayed: the real library is
given its document.  Where what comes back is not what the behaviour ends with,
the observation goes to trace validation, under the clause of the property."""
import glob, hashlib, json, os, pickle, random, re

import real, tlc
from core import MachineryError, event
from damage import clean_copy
from docs import plain_doc, write_doc

CLAUSE = {"C04": "hygiene", "C05": "arity", "C07": "total", "C19": "balance", "C20": "marks", "C23": "commands", "C24": "ends", "C26": "pairs", "C27": "scripts"}
LINE = re.compile(r'<<"BEHAVIOUR", "(.*)">>')


def explore(c, config="MC.cfg"):
    """All complete behaviours.  (They do not depend on the code: tools/hunt.py,
    which runs many checks on one specification, has them kept in MC_CACHE.)"""
    cache = os.environ.get("MC_CACHE")
    if cache:
        h = hashlib.sha256("".join([c.prop, c.tier, config]).encode())
        for f in sorted(glob.glob(os.path.join(tlc.SPEC, "*.tla")) + [os.path.join(tlc.SPEC, "symbols.json"), os.path.join(tlc.SPEC, config)]):
            h.update(open(f, "rb").read())
        cache = os.path.join(cache, h.hexdigest()[:20] + ".pickle")
        if os.path.exists(cache):
            bs, model, states, transitions = pickle.load(open(cache, "rb"))
            c.models.append(model)
            c.model_states += states
            c.model_transitions += transitions
            return bs
    r = tlc.run("MC.tla", config, env={"MC_PROP": c.prop, "MC_TIER": c.tier}, heap="8g")
    if not r.finished:
        raise MachineryError("model checking did not succeed: %s\n%s" % (r.violated, LINE.sub("", r.out)[-3000:]))
    c.model_states += r.distinct
    c.model_transitions += r.generated
    bs = [json.loads(json.loads('"' + m + '"')) for m in LINE.findall(r.out)]
    c.models.append({"module": "MC", "config": config, "family": c.prop, "documents": len({b["i"] for b in bs}), "behaviours": len(bs),
                     "distinct_states": r.distinct, "depth": r.depth, "seconds": round(r.seconds, 1)})
    if cache:
        with open(cache + ".%d" % os.getpid(), "wb") as f:
            pickle.dump((bs, c.models[-1], r.distinct, r.generated), f)
        os.replace(cache + ".%d" % os.getpid(), cache)
    return bs


def refuted(c, config, invariant):
    """A model that is wrong on purpose violates the invariant (else the
    invariant says nothing)."""
    r = tlc.run("MC.tla", config, env={"MC_PROP": c.prop, "MC_TIER": "quick"}, heap="8g")
    if invariant not in r.violated:
        raise MachineryError("the model does not show the defect it should: %s\n%s" % (r.violated, LINE.sub("", r.out)[-2000:]))
    c.models.append({"module": "MC", "config": config, "family": c.prop, "result": "violates %s, as it should" % invariant})


def tree_of(d):
    """The tree of a plainly written document, or None."""
    def go(i):
        ts = [k for k in i["c"] if k["k"] == "t"]
        es = [k for k in i["c"] if k["k"] == "e"]
        if len(ts) + len(es) != len(i["c"]) or i["p"] or len(ts) > 1 or any(a["q"] not in "ds" for a in i["a"]):
            raise ValueError
        return {"t": i["t"], "a": [(a["n"], "".join(a["v"])) for a in i["a"]], "x": "".join(ts[0]["x"]) if ts else "",
                "k": [go(k) for k in es]}
    if d["b"] or d["f"] or d["r"]["t"] != "math":
        return None
    try:
        return go(d["r"])
    except ValueError:
        return None


def from_tla(t):
    """A tree as TLC writes it."""
    return {"t": t["t"], "a": [("".join(n), "".join(v)) for n, v in t["a"]], "x": "".join(t["x"]), "k": [from_tla(k) for k in t["k"]]}


def ends_as(o, b):
    if b["kind"] == "tex":
        return o["ok"] and o["tex"] == b["tex"]
    return not o["ok"] and (b["kind"] == "rejected" or o["count"])


def observation(c, b, also):
    """The event by which the property judges the behaviour."""
    if c.prop == "C02":
        return event("same", [b["d"]] + [plain_doc({"t": "div", "a": [], "x": "", "k": also})])
    if c.prop == "C03":
        return event("join", [b["d"]] + [plain_doc(t) for t in also])
    if c.prop == "C06":
        return event("repair", [b["d"], clean_copy(b["d"])])
    if c.prop == "C22":
        return event("essence", [b["d"]] + [plain_doc(t) for t in also])
    if c.prop == "C25":
        return event("regroup", [b["d"]] + [plain_doc(t) for t in also])
    if c.prop == "C21":
        return event("plug", [b["d"]] + [plain_doc(t) for t in also], path=b["p"])
    e = event(CLAUSE.get(c.prop, "full"), [b["d"]])
    e["tree"] = tree_of(b["d"])
    return e


def replay(c, sample=200):
    """Replay everything; judge what deviates, and a sample of what does not."""
    r = random.Random("%s/replay/%s" % (c.prop, c.seed))
    by = {}
    for b in explore(c):
        by.setdefault(b["i"], []).append(b)
    members = list(by.values())
    r.shuffle(members)
    xmls, trees = {}, {}
    for bs in members:
        b = bs[0]
        b["xml"] = write_doc(b["d"])
        if b["xml"] != b["x"]:
            raise MachineryError("written differently: %r %r" % (b["xml"], b["x"]))
        xmls[b["xml"]] = None
        b["trees"] = [from_tla(a["t"]) for a in b["also"]]
        b["axml"] = [write_doc(plain_doc(t)) for t in b["trees"]]
        xmls.update(dict.fromkeys(b["axml"]))
    keys = list(xmls)
    outs = dict(zip(keys, real.convert_all(keys)))
    c.calls += len(keys)
    c.distinct.update(hash(x) for x in keys)
    odd, fine = [], []
    for bs in members:
        b = bs[0]
        as_model = any(ends_as(outs[b["xml"]], x) for x in bs) and all(
            outs[x]["ok"] and outs[x]["tex"] == a["tex"] for x, a in zip(b["axml"], b["also"]))
        (fine if as_model else odd).append(b)
    c.replayed += len(members)
    counted = [b for b in fine if c.prop == "C05" and b["kind"] == "count"]     # (the message has to be judged)
    picked = counted + r.sample(fine, min(sample, len(fine)))
    odd.sort(key=lambda b: len(b["xml"]))
    if len(odd) > 3000:
        odd = odd[:2000] + r.sample(odd[2000:], 1000)
    c.models[-1]["deviating_from_the_model"] = len(odd)
    failing = c.run([observation(c, b, b["trees"]) for b in odd + picked])
    return failing

"""The core of all checks: observe the real library, let TLC judge, shrink and
attribute what it rejects, report."""
import copy, json, os, random, sys, tempfile, time

import real, tlc
from docs import T, math, mi, plain_doc, size, walk, write_doc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")


class MachineryError(Exception):
    pass


def event(clause, docs, **args):
    """An observation to be made: documents to convert, clause to judge them by."""
    return {"clause": clause, "docs": docs, "args": args}


def tree_event(clause, tree, **args):
    """The tree (a math element) written plainly."""
    e = event(clause, [plain_doc(tree)], **args)
    e["tree"] = tree
    return e


SINGLE = ("full", "hygiene", "arity", "total", "balance", "marks", "leaves", "commands", "pairs", "scripts", "ends")


def namespaced(t, known=("xml", "xmlns", "mml")):
    """Every prefix is declared."""
    known = set(known) | {a[6:] for a, _ in t["a"] if a.startswith("xmlns:")}
    names = [t["t"]] + [a for a, _ in t["a"]]
    return all(":" not in x or x.split(":")[0] in known for x in names) and all(namespaced(k, known) for k in t["k"])


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.time()
        self.events = self.calls = self.skipped = self.canaries = 0
        self.states = self.transitions = 0
        self.model_states = self.model_transitions = self.replayed = 0
        self.by_clause = {}
        self.samples, self.notes, self.models = [], [], []
        self.distinct = set()
        self.until = float("inf")
        self.violations, self.known, self.listed = [], [], []

    def seconds(self):
        return time.time() - self.start

    # --- observing and judging ----------------------------------------------
    def observe(self, events, hashseed="0", limit=20):
        """Run the documents of the events in the real library."""
        xmls, where = [], {}
        for e in events:
            e["xml"] = [write_doc(d) for d in e["docs"]]
            for x in e["xml"]:
                if x not in where:
                    where[x] = len(xmls)
                    xmls.append(x)
        counted = list(dict.fromkeys(x for e in events if e["clause"] == "effort" for x in e["xml"]))
        outs = real.convert_all(xmls, hashseed=hashseed, limit=limit) if len(counted) < len(xmls) else [None] * len(xmls)
        for x, o in zip(counted, real.convert_all(counted, hashseed=hashseed, limit=limit, steps=True)):
            outs[where[x]] = o
        for e in events:
            e["out"] = [outs[where[x]] for x in e["xml"]]
        self.calls += len(xmls)
        self.distinct.update(hash(x) for x in xmls)
        return events

    def case(self, e, i):
        o = e["out"][i]
        return {"doc": e["docs"][i], "xml": e["xml"][i],
                "out": {k: o[k] for k in ("ok", "tex", "count", "msg", "cls", "steps") if k in o}}

    def judge(self, events, chunk=6000):
        """TLC's verdict of each observed event."""
        res = []
        for a in range(0, len(events), chunk):
            part = events[a:a + chunk]
            log = [{"id": i, "clause": e["clause"], "prop": self.prop, "args": e["args"] or {"none": 0},
                    "cases": [self.case(e, j) for j in range(len(e["docs"]))]} for i, e in enumerate(part)]
            fd, path = tempfile.mkstemp(suffix=".json")
            try:
                with os.fdopen(fd, "w", encoding="utf-8") as f:
                    json.dump(log, f, ensure_ascii=False)
                v, r = tlc.verdicts(path, len(log))
            finally:
                os.unlink(path)
            self.states += r.distinct
            self.transitions += r.generated
            res += [v.get(i, "ok") for i in range(len(part))]
        if "unbound" in res:
            e = events[res.index("unbound")]
            raise MachineryError("a text is not the one its document stands for: %r" % e["xml"])
        return res

    # --- canaries: observations that are wrong for certain ---------------------
    def canary(self, e):
        c = copy.deepcopy({k: e[k] for k in ("clause", "docs", "args", "xml")})
        c["out"] = [dict(o) for o in e["out"]]
        o = c["out"][0]
        k = e["clause"]
        if k == "effort":
            c["out"][-1]["steps"] *= 1000
        elif k == "ends":
            o.update(ok=False, cls="Hang")
        elif k == "arity":
            o.update(ok=False, count=not o["count"], msg="")
        elif k == "total":
            o.update(ok=False)
        elif not o["ok"]:
            if k not in ("full", "same", "regroup"):
                return None
            o.update(ok=True, count=False, tex="wrong")
        else:
            o["tex"] += {"hygiene": " ", "balance": "{", "marks": "7", "commands": "\\qqq", "pairs": "\\right)", "scripts": "x^{1}^{2}"}.get(k, "+7")
            if k == "leaves":
                o["tex"] = ""
        return c

    def run(self, events):
        """Observe and judge; canaries are mixed in.  Returns the failing events."""
        if not events:
            return []
        self.observe(events)
        r = random.Random(self.seed + len(events))
        sample = r.sample(range(len(events)), min(len(events), 12))
        canaries = [c for c in (self.canary(events[i]) for i in sample) if c]
        verdicts = self.judge(events + canaries)
        n = len(events)
        for i, c in zip([i for i in sample if self.canary(events[i])], verdicts[n:]):
            # (a canary made from an event that is skipped or fails says nothing)
            if verdicts[i] == "ok" and c == "ok" and not (events[i]["clause"] == "leaves"):
                raise MachineryError("a corrupted observation was accepted: %r" % events[i]["xml"])
            self.canaries += verdicts[i] == "ok" and c != "ok"
        failing = []
        for e, v in zip(events, verdicts[:n]):
            e["verdict"] = v
            k = self.by_clause.setdefault(e["clause"], {"ok": 0, "skip": 0, "rejected": 0})
            k["ok" if v == "ok" else "skip" if v == "skip" else "rejected"] += 1
            if v == "skip":
                self.skipped += 1
                if os.environ.get("SHOW_SKIPS"):
                    print("SKIP", e["clause"], e["args"], *map(ascii, e["xml"]), sep="\n   ")
            else:
                self.events += 1
            if v in ("violation", "unrelated"):
                failing.append(e)
        good = [e for e in events if e["verdict"] == "ok"]
        for e in r.sample(good, min(len(good), 3)):
            if len(self.samples) < 12:
                self.samples.append({"clause": e["clause"], "xml": [x[:300] for x in e["xml"]],
                                     "out": [(o["tex"] if o["ok"] else o["cls"] + ": " + o["msg"])[:200] for o in e["out"]]})
        return failing

    # --- attribution and shrinking ---------------------------------------------
    def again(self, events):
        """Fresh observation and verdict (each event in a process of its own order)."""
        self.observe(events, limit=5)
        return self.judge(events)

    def attribute(self, failing):
        """Turn failing events into violations of the property (or into notes)."""
        r = random.Random(self.seed)
        for e in failing:
            if any(k["xml"] == e["xml"][0] for k in self.known) and e["xml"][0] not in self.listed:
                self.listed.append(e["xml"][0])
        failing = [e for e in failing if e["xml"][0] not in self.listed]
        if not failing:
            return
        failing.sort(key=lambda e: sum(map(len, e["xml"])))
        pick = failing[:12] + (r.sample(failing[12:], min(12, len(failing) - 12)) if len(failing) > 12 else [])
        self.notes.append("%d observations rejected" % len(failing))
        alone = []
        for e in pick:      # does it fail on its own, in a fresh process?
            f = {k: e[k] for k in ("clause", "docs", "args")}
            f["tree"] = e.get("tree")
            alone.append(f)
        for f in alone:
            f["xml"] = [write_doc(d) for d in f["docs"]]
        outs = iter(real.convert_alone([x for f in alone for x in f["xml"]], steps=any(f["clause"] == "effort" for f in alone)))
        for f in alone:
            f["out"] = [next(outs) for _ in f["xml"]]
        verdicts = self.judge(alone)
        budget = 40
        self.until = time.time() + 200      # (shrinking is a courtesy)
        for e, f, v in zip(pick, alone, verdicts):
            if v in ("ok", "skip"):
                # depends on what was converted before: the recorded observation stands
                if e["verdict"] == "violation":
                    self.violations.append(self.report(e, "only after other conversions in the same process"))
                continue
            f["verdict"] = v
            if e["clause"] == "full":
                g = self.culprit(f, budget)
                if g is not None:
                    self.violations.append(self.report(g, "", f))
            else:
                g = self.shrink(f, budget) if f["clause"] in SINGLE and f.get("tree") else f
                self.violations.append(self.report(g, "", f))
            if len(self.violations) >= 3:
                return

    def report(self, e, note, origin=None):
        return {"property": self.prop, "clause": e["clause"], "xml": e["xml"], "observed": e["out"],
                "docs": e["docs"], "args": e["args"], "note": note, "found_as": origin["xml"] if origin else e["xml"]}

    def candidates(self, tree, r, limit=150):
        """Smaller trees."""
        nodes = [n for n in walk(tree)]
        edits = []
        def edit(f):
            edits.append(f)
        for i, n in enumerate(nodes):
            for j in range(len(n["k"])):
                edit(lambda ns, i=i, j=j: ns[i]["k"].pop(j))
                if not (n["k"][j]["t"] == "mi" and n["k"][j]["x"] in ("a", "b") and not n["k"][j]["a"]):
                    edit(lambda ns, i=i, j=j: ns[i]["k"].__setitem__(j, mi("a")))
                if n["k"][j]["k"]:
                    edit(lambda ns, i=i, j=j: ns[i]["k"].__setitem__(slice(j, j + 1), ns[i]["k"][j]["k"]))
            for j in range(len(n["a"])):
                edit(lambda ns, i=i, j=j: ns[i]["a"].pop(j))
            h = len(n["k"]) // 2
            if len(n["k"]) > 3:
                edit(lambda ns, i=i, h=h: ns[i].__setitem__("k", ns[i]["k"][:h]))
                edit(lambda ns, i=i, h=h: ns[i].__setitem__("k", ns[i]["k"][h:]))
            x = n["x"]
            def text(y, i=i):
                edit(lambda ns: ns[i].__setitem__("x", y.strip()))
            if len(x) > 1:
                text(x[:len(x) // 2])
                text(x[len(x) // 2:])
                if len(x) < 8:
                    for j in range(len(x)):
                        text(x[:j] + x[j + 1:])
            elif x and n["t"] not in ("mi", "mo", "mn", "mtext"):
                text("")
        most = max(20, 60000 // len(nodes))
        if len(edits) > most:       # (a large tree: the edits that take most away, and some others)
            edits = edits[:most // 4] + r.sample(edits[most // 4:], most - most // 4)
        small = nodes[1:] if len(nodes) < 400 else nodes[1:200] + r.sample(nodes[200:], 200)
        out = [math(n) if n["t"] != "math" else n for n in small]
        for f in edits:
            t = copy.deepcopy(tree)
            f(list(walk(t)))
            out.append(t)
        key = lambda t: (size(t), sum(len(n["x"]) + len(n["a"]) for n in walk(t)))
        mine = key(tree)
        out = [t for t in out if key(t) < mine and namespaced(t) and not any(m["t"] == "math" for n in t["k"] for m in walk(n))]
        if len(out) > limit:
            out.sort(key=key)
            out = out[:limit // 2] + r.sample(out[limit // 2:], limit // 2)
        return sorted(out, key=key)

    def shrink(self, e, rounds=12, bad=("violation", "unrelated")):
        """A smaller tree on which the event still fails (plainly written)."""
        r = random.Random(1)
        best = e
        if e.get("tree") is None:
            return e
        base = tree_event(e["clause"], e["tree"], **e["args"])
        if self.again([base])[0] not in bad:
            return e
        best = base
        for _ in range(rounds):
            if time.time() > self.until:
                break
            cs = [tree_event(e["clause"], t, **e["args"]) for t in self.candidates(best["tree"], r)]
            if not cs:
                break
            vs = self.again(cs)
            hit = next((c for c, v in zip(cs, vs) if v in bad), None)
            if hit is None:
                break
            hit["verdict"] = vs[cs.index(hit)]
            best = hit
        if "verdict" not in best:
            best["verdict"] = self.judge([best])[0]
        return best

    def culprit(self, e, rounds):
        """A minimal failing part the property is about, or None."""
        tree = e.get("tree")
        if tree is None:
            return e if e["verdict"] == "violation" else None
        tree = copy.deepcopy(tree)
        for _ in range(8):
            base = tree_event(e["clause"], tree, **e["args"])
            v = self.again([base])[0]
            if v not in ("violation", "unrelated"):
                # fails only as it was written, or no more
                return e if _ == 0 and e["verdict"] == "violation" else None
            base["verdict"] = v
            g = self.shrink(base, rounds)
            if g["verdict"] == "violation":
                return g
            # what fails has nothing to do with the property: take it out, try again
            small = next((n for n in walk(g["tree"]) if n["t"] in ("mi", "mo", "mn", "mtext")), None)
            if time.time() > self.until:
                return e if e["verdict"] == "violation" else None
            culprits = [n for n in walk(tree)]
            evs = [tree_event(e["clause"], math(n)) for n in culprits[1:]]
            vs = self.again(evs)
            changed = False
            for n, w in zip(culprits[1:], vs):
                if w == "unrelated":
                    n.update(mi("a") if n["t"] != "mtr" else T("mtr", T("mtd", mi("a"))))
                    changed = True
            self.notes.append("unrelated failure: %r" % g["xml"][0][:200])
            if not changed:
                return None
        return None

    # --- the end -----------------------------------------------------------------
    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        shown = self.violations
        cov = {"states": self.states + self.model_states, "transitions": self.transitions + self.model_transitions,
               "traces_validated_against_impl": self.events,
               "of_these_generated_by_tlc_and_replayed": self.replayed,
               "distinct_inputs": len(self.distinct), "conversions_run": self.calls, "verdicts": self.by_clause,
               "corrupted_observations_rejected": self.canaries, "models": self.models, "samples": self.samples[:8],
               "notes": self.notes[:20], "known_findings_seen": len(self.listed)}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": ["the pinned symbol tables in spec/symbols.json are the intended ones",
                              "TLC evaluates the specification correctly"],
              "wall_s": round(self.seconds(), 1), "violations": len(shown)}
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, ensure_ascii=True, indent=1)
        for k in self.known:
            if k["xml"] in self.listed:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k["what"], ascii(k["xml"])))
        if not shown:
            print("%s: held on %d judged observations, %d replayed behaviours, %d model states (%.0f s)" % (
                self.prop, self.events, self.replayed, self.model_states, self.seconds()))
            return 0
        os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
        for i, v in enumerate(shown):
            path = os.path.join(EVIDENCE, "replay", "%s-%d.json" % (self.prop, i + 1))
            with open(path, "w", encoding="utf-8") as f:
                json.dump(v, f, ensure_ascii=True, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(path, VERIF)))
            for x, o in zip(v["xml"], v["observed"]):
                print("  %s\n    -> %s" % (ascii(x)[:400], ascii(o["tex"] if o["ok"] else o["cls"] + ": " + o["msg"])[:400]))
        return 1

"""C01: behaviours of Session (sequences of calls, interleavings) in the real library."""
import copy, json, random, re

import damage, gen, real, tlc
from core import MachineryError
from docs import T, attr, math, mi, mn, mo, mrow, plain_doc, raw, walk, write_doc
from docs import _write_attr as write_attr
from dress import Dress
from gen import CONTEXTS, FOCUS, Gen, in_context


def seed(r): return r.randrange(1 << 30)


def concrete(r, kind, focus=None):
    """A document of a class of Session."""
    g = Gen(seed(r), focus if focus is not None else r.choice(list(FOCUS.values()) + [[]] * 3), noise=.2)
    if kind == "table":
        inner = Gen(seed(r), ["mtable"]).formula(r.choice([4, 10, 16]))["k"]
        t = math(T("mtable", *[T("mtr", *[T("mtd", k) for k in inner]) for _ in range(r.choice([1, 2]))]))
        if r.random() < .5:
            t = math(T("mfenced", t["k"][0], open=r.choice("[({"), close=r.choice("])}")))
        return write_doc(plain_doc(t))
    t = g.formula(r.choice([3, 6, 12, 20]))
    if kind == "plain":
        return write_doc(plain_doc(t)) if r.random() < .6 else write_doc(Dress(random.Random(seed(r))).document(t))
    if kind == "repairable" and r.random() < .4:
        return shared(r, write_doc(plain_doc(t)), 4)
    if kind == "repairable":
        while True:
            d = damage.inject(r, plain_doc(t), r.choice([1, 2, 3, 4]), 3, True)
            if any(a["q"] not in "ds" for e in damage.elements(d["r"]) for a in e["a"]):
                return write_doc(d)
    if kind == "miscounted":
        name = r.choice([c for c in sorted(CONTEXTS) if CONTEXTS[c]])
        bad = T(r.choice(["mfrac", "msup", "msub", "mroot", "munder", "mover", "msubsup", "munderover"]), mi("x"))
        return write_doc(plain_doc(math(t["k"][0] if t["k"] else mi("y"), CONTEXTS["mrow"](bad) if r.random() < .5 else bad)))
    x = write_doc(plain_doc(t))
    if r.random() < .3:
        return shared(r, x, 10)
    return r.choice([x[:len(x) * 2 // 3], x + "<", x.replace("</", "<", 1), "", "<math>&undefined;</math>", x[:-7] + "</mi></math>",
                     "<math><mi foo a=b c d>x</mi", "<math " + " ".join("b%d=" % i for i in range(9)) + "><mo x"])


# malformed attributes documents have in common
SHARED = [attr(n, v, q, " ") for n, v, q in [
    ("foo", "", "n"), ("foo", "b", "u"), ("foo", "", "e"), ("bar", "", "n"), ("bar", "1", "u"), ("x", "y", "u"), ("open", "", "e"),
    ("data", "", "e"), ("stretchy", "", "n"), ("a", "50%", "u"), ("id", "m1", "u"), ("class", "", "n"), ("b", "", "e"), ("mi", "2", "u")]]


def shared(r, x, most=8):
    """x (plainly written) with some of the shared malformed attributes."""
    tags = list(re.finditer(r"<[a-z]+(?=[ >])", x))
    if not tags:
        return x
    add = {}
    for a in r.sample(SHARED, r.randint(1, most)):
        for m in r.sample(tags, min(len(tags), r.choice([1, 1, 2]))):
            add.setdefault(m.end(), []).append(a)
    out, at = "", 0
    for k in sorted(add):
        out += x[at:k] + "".join(write_attr(a) for a in add[k])
        at = k
    return out + x[at:]


def everything(r):
    """A document with every construct in every position, in some order."""
    names = [n for n in sorted(CONTEXTS) if CONTEXTS[n]]
    r.shuffle(names)
    small = [mi("a"), mn("2"), mrow(mi("b"), mi("c")), T("mtext", x="if é"), mi("v", mathvariant="bold"), T("mfenced", mi("m"), mi("n"), open="|")]
    return write_doc(plain_doc(math(*[CONTEXTS[n](copy.deepcopy(r.choice(small))) for n in names])))


CLASSES = ["plain", "table", "repairable", "miscounted", "broken"]


def near(r, x):
    """A document that differs from x in little."""
    kinds = [lambda: re.sub(r"(?<=>)([A-Za-z0-9])(?=<)", lambda m: r.choice("abcxyz123"), x),
             lambda: x.replace("msup", "msub"), lambda: x.replace("mfrac", "mroot"), lambda: x.replace("<mi>", "<mi mathvariant=\"bold\">"),
             lambda: x.replace('open="(', 'open="['), lambda: x.replace("munder", "mover"), lambda: x + " ", lambda: x.replace("<mn>", "<mo>").replace("</mn>", "</mo>"),
             lambda: x.replace("<math>", '<math id="%d">' % r.randrange(100)), lambda: x.replace("</math>", "<mi>q</mi></math>"),
             lambda: x.replace("box", "circle"), lambda: x.replace("mtext", "mi"), lambda: x[:len(x) // 2],
             lambda: shared(r, x), lambda: shared(r, x, 3), lambda: shared(r, x, 12)]
    return r.choice(kinds)()


class C01:
    def __init__(self, c):
        self.c, self.r = c, random.Random("C01/%s" % c.seed)
        self.ref = {}
        self.step_count = {}

    def event(self, docs, log, what):
        """A session event over only the documents of the log."""
        used = sorted({x[3] for x in log})
        pos = {d: i + 1 for i, d in enumerate(used)}
        entries = []
        for e, t, cv, d, out in log:
            x = {"e": e, "t": t, "c": cv, "d": pos[d]}
            if e == "return":
                x["out"] = {k: out[k] for k in ("ok", "tex", "cls")}
            entries.append(x)
        xs = [docs[d - 1] for d in used]
        return {"clause": "session", "docs": [raw(x) for x in xs], "xml": xs, "out": [self.ref[x] for x in xs],
                "args": {"log": entries, "what": what}}

    def references(self, docs):
        new = [x for x in dict.fromkeys(docs) if x not in self.ref]
        if not new:
            return
        n = max(1, min(8, len(new) // 10))
        parts = [new[i::n] for i in range(n)]
        for part, log in zip(parts, real.sessions([{"mode": "alone", "docs": p} for p in parts])):
            for x in log:
                if x[0] == "return":
                    self.ref[part[x[3] - 1]] = x[4]
        self.c.calls += len(new)

    def steps(self, docs, fine=False):
        new = [x for x in dict.fromkeys(docs) if (x, fine) not in self.step_count]
        if new:
            for x, n in zip(new, real.sessions([{"mode": "lines", "docs": new, "fine": fine}])[0]):
                self.step_count[x, fine] = n
        return [self.step_count[x, fine] for x in docs]

    def model(self, config, expect_violation=None):
        r = tlc.run("Session.tla", config + ".cfg")
        if expect_violation:
            if expect_violation not in r.violated:
                raise MachineryError("the model does not show the defect it should\n" + r.out[-2000:])
        elif not r.finished:
            raise MachineryError("model checking failed\n" + r.out[-3000:])
        else:
            self.c.model_states += r.distinct
            self.c.model_transitions += r.generated
        self.c.models.append({"config": config, "states": r.distinct, "transitions": r.generated, "depth": r.depth,
                              "result": "violates %s, as it should" % expect_violation if expect_violation else "no error"})
        return [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'<<"BEHAVIOUR", "(.*)">>', r.out)]

    def judge(self, jobs, what):
        """Run the jobs, let TLC judge the logs; canaries mixed in."""
        for j in jobs:
            self.references(j["docs"])
        logs = real.sessions(jobs)
        if all(j["mode"] == "slices" for j in jobs):
            jobs, logs = self.merged(jobs, logs)
        events = [self.event(j["docs"], l, what) for j, l in zip(jobs, logs)]
        canaries = []
        for e in events[:6]:
            k = copy.deepcopy(e)
            last = [x for x in k["args"]["log"] if x["e"] == "return"][-1:]
            for x in last:
                x["out"]["tex"] += "+7"
            if last:
                canaries.append(k)
        vs = self.c.judge(events + canaries, chunk=1500)
        if "ok" in vs[len(events):]:
            raise MachineryError("a corrupted log was accepted")
        self.c.canaries += len(canaries)
        bad = [(j, e) for j, e, v in zip(jobs, events, vs) if v != "ok"]
        k = self.c.by_clause.setdefault(what, {"ok": 0, "rejected": 0, "calls": 0})
        k["ok"] += len(events) - len(bad)
        k["rejected"] += len(bad)
        n = sum(len(e["args"]["log"]) // 2 for e in events)
        k["calls"] += n
        self.c.calls += n
        self.c.events += len(events)
        self.c.distinct.update(hash(x) for j in jobs for x in j["docs"])
        if events and len(self.c.samples) < 8:
            e = self.r.choice(events)
            self.c.samples.append({"clause": what, "xml": [x[:150] for x in e["xml"][:3]],
                                   "log": [[x["e"], x["t"], x["c"], x["d"]] for x in e["args"]["log"][:8]]})
        for j, e in sorted(bad, key=lambda p: len(p[1]["args"]["log"]))[:2]:
            if len(self.c.violations) < 3:
                self.report(j, e, what)
        return not bad

    def merged(self, jobs, logs):
        """Interleavings of the same documents in one log (those that went as
        they should), by the hundred."""
        groups, out = {}, []
        for j, l in zip(jobs, logs):
            # (one that does not look right stays alone, so that it is the one reported)
            right = all(x[0] == "call" or x[4] == {**self.ref[j["docs"][x[3] - 1]], "msg": x[4]["msg"]} for x in l) and len(l) == 4
            key = (tuple(j["docs"]), j["mode"]) if right else len(out)
            if not right:
                out.append((j, l))
                continue
            g = groups.setdefault(key, [])
            if not g or len(g[-1][1]) >= 400:
                g.append((j, []))
                out.append(g[-1])
            g[-1][1].extend(l)
        return [j for j, _ in out], [l for _, l in out]

    def report(self, job, e, what):
        if job["mode"] == "history" and len(job["calls"]) > 2:
            e = self.shorter(job, e)
        v = self.c.report(e, what)
        v["observed"] = [dict(x["out"], msg="") for x in e["args"]["log"] if x["e"] == "return"][-len(e["xml"]):]
        v["plan"] = job.get("plan")
        self.c.violations.append(v)

    def shorter(self, job, e):
        """The failing call with one call before it, if that is enough."""
        log = [x for x in e["args"]["log"] if x["e"] == "return"]
        i = next((i for i, x in enumerate(log) if not all(x["out"][k] == e["out"][x["d"] - 1][k] for k in ("ok", "tex", "cls"))), None)
        if i is None:
            return e
        calls = job["calls"]
        cands = [{"mode": "history", "docs": job["docs"], "calls": [calls[j], calls[i]]} for j in list(range(i))[::-1][:120]]
        logs = [real.run("session.py", [c])[0] for c in cands[:60]]
        events = [self.event(c["docs"], l, "history") for c, l in zip(cands, logs)]
        for f, v in zip(events, self.c.judge(events) if events else []):
            if v != "ok":
                return f
        return e

    # --- what is run ---------------------------------------------------------
    def pool(self, n):
        return {k: [concrete(self.r, k) for _ in range(n)] for k in CLASSES}

    def histories(self, behaviours):
        """Behaviours of one thread."""
        r, pool, jobs = self.r, self.pool(14), []
        for b in behaviours:
            docs, calls, last = [], [], {}
            for x in b["calls"]:
                u = r.random()
                d = last[x["d"]] if x["d"] in last and u < .4 else r.choice(pool[x["d"]])
                last[x["d"]] = d
                docs.append(d)
                calls.append([x["c"], len(docs)])
            jobs.append({"mode": "history", "docs": docs, "calls": calls})
        self.judge(jobs, "histories")

    def long(self, n, length):
        """Long histories with repetitions and documents that differ in little."""
        r, jobs = self.r, []
        for _ in range(n):
            docs = []
            while len(docs) < length // 3:
                if docs and r.random() < .5:
                    docs.append(near(r, r.choice(docs[-30:])))
                else:
                    docs.append(concrete(r, r.choice(CLASSES + ["plain"] * 3)))
            order = [r.randrange(len(docs)) + 1 for _ in range(length)]
            jobs.append({"mode": "history", "docs": docs, "calls": [[r.choice([1, 1, 1, 2, 3]), d] for d in order]})
        self.judge(jobs, "long histories")

    def every_symbol(self):
        """The same small formulas in two orders, in one process."""
        r = self.r
        docs = [write_doc(plain_doc(in_context(n, copy.deepcopy(o)))) for n in sorted(CONTEXTS) for o in
                [mi("x"), mn("12"), T("mtable", T("mtr", T("mtd", mi("a")), T("mtd", mi("b"))))]]
        docs += [write_doc(plain_doc(math(T(t, x=k)))) for k in r.sample(gen.TABLE_KEYS, 150) for t in ("mi", "mo")]
        docs += [write_doc(plain_doc(math(T("mi", x=k, mathvariant=v)))) for k in ("a", "α", "sin") for v in gen.VARIANTS]
        a = list(range(1, len(docs) + 1))
        jobs = []
        for _ in range(4):
            b = a[:]
            r.shuffle(b)
            jobs.append({"mode": "history", "docs": docs, "calls": [[1, d] for d in b + b[::-1]]})
        self.judge(jobs, "every construct in several orders")

    def attrition(self, times):
        """The same document very often, failing somewhere or not; then every construct."""
        r = self.r
        probes = [write_doc(plain_doc(in_context(n, mi("x")))) for n in sorted(CONTEXTS)]
        bad = lambda: T(r.choice(["mfrac", "msup", "munder", "msubsup"]), mi("x"))
        wear = [write_doc(plain_doc(in_context(n, bad()))) for n in sorted(CONTEXTS)]
        wear += [write_doc(plain_doc(math(CONTEXTS[a](CONTEXTS[b](bad()))))) for a, b in
                 [r.sample([n for n in sorted(CONTEXTS) if CONTEXTS[n]], 2) for _ in range(12)]]
        wear += [concrete(r, k) for k in CLASSES for _ in range(3)] + probes[::7]
        jobs = []
        for x in wear:
            docs = [x] + probes
            calls = [[1 if i % 2 else 2, 1] for i in range(times)] + [[1, d + 2] for d in range(len(probes))]
            jobs.append({"mode": "history", "docs": docs, "calls": calls})
        self.judge(jobs, "attrition")

    def common(self, n):
        """Documents that share malformed attributes, subsets and supersets, in
        every order."""
        r, jobs = self.r, []
        for _ in range(n):
            base = [write_doc(plain_doc(Gen(seed(r), noise=.1).formula(r.choice([3, 6])))) for _ in range(3)]
            docs = [shared(r, r.choice(base), most) for most in (1, 2, 3, 4, 5, 6, 7, 8, 10, 14) for _ in range(5)] + base
            order = list(range(1, len(docs) + 1))
            calls = []
            for _ in range(4):
                r.shuffle(order)
                calls += [[r.choice([1, 1, 2]), d] for d in order]
            jobs.append({"mode": "history", "docs": docs, "calls": calls})
        self.judge(jobs, "malformed attributes in common")

    def everywhere(self, n, times):
        """A call on a document with every construct, stopped at each place of
        the code; another such call meanwhile."""
        for _ in range(n):
            if not self.preemptions([(everything(self.r), everything(self.r)), (shared(self.r, everything(self.r), 4), everything(self.r))], times):
                return

    def schedules(self, behaviours, limit):
        """Interleavings of two calls: each model step is a share of the real steps."""
        r, pool, jobs = self.r, self.pool(6), []
        if len(behaviours) > limit:
            behaviours = r.sample(behaviours, limit)
        picks = []
        for b in behaviours:
            calls = sorted(b["calls"], key=lambda x: x["t"])
            docs = [r.choice(pool[x["d"]]) for x in calls]
            picks.append((b, calls, docs))
        self.steps([d for p in picks for d in p[2]])
        for b, calls, docs in picks:
            total = [len(q) for q in self.steps(docs)]
            share = [max(1, total[t] // b["steps"].count(t + 1)) for t in range(2)]
            plan = []
            for t in b["steps"]:
                if plan and plan[-1][0] == t:
                    plan[-1][1] += share[t - 1]
                else:
                    plan.append([t, share[t - 1]])
            plan = [[t, max(0, n + r.randint(-2, 2))] for t, n in plan] + [[1, None], [2, None]]
            jobs.append({"mode": "slices", "docs": docs, "calls": [[calls[0]["c"], 1], [calls[1]["c"], 2]], "plan": plan})
        self.judge(jobs, "interleavings of the model")

    def preemptions(self, pairs, times, fine=False):
        """One thread is stopped at every place of the code it passes (the
        given number of times, at random; 0: at every step), another runs."""
        jobs = []
        self.steps([d for p in pairs for d in p], fine)
        for a, b in pairs:
            sa, sb = self.steps([a, b], fine)
            na, nb = len(sa), len(sb)
            where = {}
            for i, p in enumerate(sa):
                where.setdefault(p, []).append(i)
            ks = range(na) if times == 0 else sorted({i for w in where.values() for i in self.r.sample(w, min(times, len(w)))})
            for k in ks:
                jobs.append({"mode": "slices", "docs": [a, b], "calls": [[1, 1], [self.r.choice([1, 1, 2]), 2]], "fine": fine,
                             "plan": [[1, k], [2, None], [1, None]]})
            for _ in range(len(ks) // 4):
                plan = [[1, self.r.randint(0, na)], [2, self.r.randint(0, nb)], [1, self.r.randint(0, na // 2)], [2, self.r.randint(0, nb)],
                        [1, None], [2, None]]
                jobs.append({"mode": "slices", "docs": [a, b], "calls": [[1, 1], [self.r.choice([1, 1, 2]), 2]], "plan": plan, "fine": fine})
        for i in range(0, len(jobs), 4000):
            if not self.judge(jobs[i:i + 4000], "one call stopped at each place, another in between"):
                return

    def free(self, n, threads, length):
        r, jobs = self.r, []
        for i in range(n):
            docs = [concrete(r, r.choice(CLASSES + ["table", "plain", "repairable"])) for _ in range(30)]
            if i % 2:
                docs = docs[:4]
            calls = [[[1 if i % 3 else t + 1, r.randrange(len(docs)) + 1] for _ in range(length)] for t in range(threads)]
            jobs.append({"mode": "free", "docs": docs, "calls": calls})
        self.judge(jobs, "free threads")

    def processes(self, n):
        """Other processes, with other hash seeds and settings."""
        r = self.r
        docs = [concrete(r, r.choice(CLASSES)) for _ in range(n)] + \
               [write_doc(plain_doc(in_context(k, T("mfenced", mi("x"), mi("y"), open="[", close="]")))) for k in sorted(CONTEXTS)]
        self.references(docs)
        log = []
        settings = [("1", (), {}), ("2", (), {}), ("77", (), {}), ("random", (), {}), ("3", ("-O",), {}), ("4", ("-OO",), {}),
                    ("5", ("-X", "utf8=0"), {"LC_ALL": "C", "PYTHONUTF8": "0"}), ("6", (), {"TZ": "Asia/Tokyo", "LANG": "tr_TR.UTF-8"})]
        order = list(range(1, len(docs) + 1))
        for t, (hs, opts, env) in enumerate(settings):
            r.shuffle(order)
            part = real.run("session.py", [{"mode": "history", "docs": docs, "calls": [[1, d] for d in order]}],
                            hashseed=hs, options=opts, env=env)[0]
            log += [[e, t + 1, c, d, o] for e, _, c, d, o in part]
        e = self.event(docs, log, "processes")
        v = self.c.judge([e])[0]
        self.c.events += 1
        self.c.by_clause["processes"] = {"ok": int(v == "ok"), "rejected": int(v != "ok"), "calls": len(log) // 2}
        if v != "ok":
            bad = next((x for x in e["args"]["log"] if x["e"] == "return" and
                        any(x["out"][k] != e["out"][x["d"] - 1][k] for k in ("ok", "tex", "cls"))), None)
            f = dict(e)
            if bad:
                f.update(xml=[e["xml"][bad["d"] - 1]], out=[bad["out"] | {"msg": ""}], docs=[e["docs"][bad["d"] - 1]])
            self.c.violations.append(self.c.report(f, "differs between processes (setting %r)" % (settings[bad["t"] - 1],) if bad else ""))


def pairs_of(r, n):
    ps = []
    for i in range(n):
        a, b = CLASSES[i % 5], CLASSES[(i // 5) % 5]
        ps.append((concrete(r, a), concrete(r, b)))
    return ps


def check(c, budget):
    k = C01(c)
    thorough = c.tier == "thorough"
    k.model("Session_check")
    k.model("Session_live")
    k.model("Session_shared", "Pure")
    hist = k.model("Session_history")
    sched = k.model("Session_schedules")
    n = 400 if not thorough else len(sched)
    stages = [lambda: k.histories(hist), k.every_symbol, lambda: k.common(8 if not thorough else 40),
              lambda: k.attrition(70 if not thorough else 300), lambda: k.long(4 if not thorough else 16, 900),
              lambda: k.processes(60), lambda: k.free(8 if not thorough else 24, 4, 150), lambda: k.schedules(sched, n),
              lambda: k.preemptions(pairs_of(k.r, 25), 1 if not thorough else 0),
              lambda: k.everywhere(1 if not thorough else 3, 1 if not thorough else 4)]
    if thorough:
        stages.append(lambda: k.preemptions(pairs_of(k.r, 25), 2, fine=True))
    while True:
        for i, stage in enumerate(stages):
            stage()
            if not thorough and c.seconds() > 480:
                c.notes.append("stopped early, after stage %d of %d (%.0f s)" % (i + 1, len(stages), c.seconds()))
                break
        c.replayed += len(hist) + n
        if c.violations or c.seconds() > budget:
            return

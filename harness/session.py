"""Runs calls of the real library in sequences and at the same time.
stdin: JSON list of jobs; stdout: JSON list of logs.  A log is a list of
[e, thread, converter, document (from 1), outcome].

  {"mode": "alone", "docs": [...]}             each document in a forked process
  {"mode": "history", "docs", "calls"}         calls [converter, document], in order
  {"mode": "slices", "docs", "calls", "plan"}  one call per thread; the plan says
        which thread runs for how many lines of the library's code
        ([thread, lines]; null: until it returns)
  {"mode": "free", "docs", "calls": per thread}  threads run freely
"""
import json, os, signal, sys, threading, time

sys.dont_write_bytecode = True
import worker
from worker import MathMLToLaTeX, convert

ROOT = os.path.realpath(os.environ.get("MML_SRC", "/repo/src"))


class Converters(dict):
    def __missing__(self, k):
        self[k] = MathMLToLaTeX()
        return self[k]


def call(log, convs, t, c, d, docs):
    log.append(["call", t, c, d, None])
    out = convert(docs[d - 1], convs[c])
    log.append(["return", t, c, d, out])


def alone(docs):
    log = []
    for i, x in enumerate(docs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.alarm(20)
            out = json.dumps(convert(x)).encode()
            with os.fdopen(w, "wb") as f:
                f.write(out)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        out = json.loads(data) if data else dict(ok=False, tex="", count=False, cls="died", msg="")
        log += [["call", 1, i + 1, i + 1, None], ["return", 1, i + 1, i + 1, out]]
    return log


def history(docs, calls):
    log, convs = [], Converters()
    for c, d in calls:
        call(log, convs, 1, c, d, docs)
    return log


LOCAL = threading.local()


class Scheduler:
    """Lets the threads run in slices of a number of lines of the library's code."""
    stuck = 0

    def __init__(self, plan, threads, fine):
        self.plan, self.pos, self.fine = list(plan), 0, fine
        self.go = {t: threading.Semaphore(0) for t in threads}
        self.ended, self.count, self.free = set(), 0, False
        self.left = None
        self.lock = threading.Lock()

    def begin(self):
        self.turn()

    def turn(self):
        """Give the next slice to its thread."""
        while self.pos < len(self.plan):
            t, n = self.plan[self.pos]
            self.pos += 1
            if t not in self.ended:
                self.left = n
                self.owner = t
                self.go[t].release()
                return
        self.release_all()

    def release_all(self):
        self.free = True
        for t in self.go:
            if t not in self.ended:
                self.go[t].release()

    def wait(self, t):
        # (if the others are stuck, on a lock for example, everybody runs)
        # (code with locks is stuck again and again: then less patience)
        patience = .25 if Scheduler.stuck < 3 else .02
        while not self.go[t].acquire(timeout=patience):
            before = self.count
            if self.go[t].acquire(timeout=patience):
                return
            if self.count == before:
                self.free = True
                Scheduler.stuck += 1
                return

    def line(self, t):
        self.count += 1
        if self.free or self.left is None or self.owner != t:
            return
        self.left -= 1
        if self.left < 0:
            self.turn()
            self.wait(t)

    def end(self, t):
        with self.lock:
            self.ended.add(t)
        if not self.free and self.owner == t:
            self.turn()

    def tracer(self, t):
        fine = self.fine
        def local(frame, event, arg):
            if event == ("opcode" if fine else "line"):
                self.line(t)
            return local
        def trace(frame, event, arg):
            if frame.f_code.co_filename.startswith(ROOT):
                if fine:
                    frame.f_trace_opcodes, frame.f_trace_lines = True, False
                return local
            return None
        return trace


def slices(docs, calls, plan, fine=False):
    """calls: thread (from 1) -> [converter, document]."""
    log, convs = [], Converters()
    for c, d in calls:
        convs[c]
    s = Scheduler(plan, range(1, len(calls) + 1), fine)
    def body(t, c, d):
        s.wait(t)
        sys.settrace(s.tracer(t))
        try:
            call(log, convs, t, c, d, docs)
        finally:
            sys.settrace(None)
            s.end(t)
    ts = [threading.Thread(target=body, args=(i + 1, c, d)) for i, (c, d) in enumerate(calls)]
    for t in ts:
        t.start()
    s.begin()
    for t in ts:
        t.join(60)
    return log


def lines(docs, fine=False):
    """The steps (lines, or opcodes) of the library's code each document takes:
    numbers of places in the code."""
    res, places = [], {}
    for x in docs:
        seq = []
        def local(frame, event, arg):
            if event == ("opcode" if fine else "line"):
                p = (frame.f_code, frame.f_lasti if fine else frame.f_lineno)
                seq.append(places.setdefault(p, len(places)))
            return local
        def trace(frame, event, arg):
            if frame.f_code.co_filename.startswith(ROOT):
                if fine:
                    frame.f_trace_opcodes, frame.f_trace_lines = True, False
                return local
        convert(x)      # once before: lazy imports, caches
        sys.settrace(trace)
        convert(x)
        sys.settrace(None)
        res.append(seq)
    return res


def free(docs, calls):
    sys.setswitchinterval(1e-6)
    logs = [[] for _ in calls]
    convs = Converters()
    for part in calls:
        for c, d in part:
            convs[c]
    gate = threading.Barrier(len(calls))
    def body(i):
        gate.wait()
        for c, d in calls[i]:
            call(logs[i], convs, i + 1, c, d, docs)
    ts = [threading.Thread(target=body, args=(i,)) for i in range(len(calls))]
    for t in ts:
        t.start()
    for t in ts:
        t.join(120)
    return [x for l in logs for x in l]     # (per thread; the order across threads does not matter)


MODES = {"alone": alone, "history": history, "slices": slices, "lines": lines, "free": free}


def main():
    signal.signal(signal.SIGALRM, worker.alarm)
    res = []
    for j in json.load(sys.stdin):
        j = dict(j)
        res.append(MODES[j.pop("mode")](**j))
    json.dump(res, sys.stdout)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()

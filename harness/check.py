"""check.py <property>: decides one property for the library in /repo."""
import json, os, random, sys, time, traceback

sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import behaviours, c01, c28, core, produce
from core import Check, VERIF

TRACE_PROPS = ["C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
               "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27"]
ENOUGH = 480        # seconds, for the quick tier (on a busy machine)
QUICK = {"C16": 140, "C17": 140, "C20": 120}


def known(prop):
    """The listed findings about a property (a fixed one suppresses nothing)."""
    p = os.path.join(VERIF, "known-findings.json")
    return [k for k in json.load(open(p, encoding="utf-8"))["findings"] if k["property"] == prop]


def trace_check(c):
    n = QUICK.get(c.prop, 150)
    r = random.Random("%s/%s" % (c.prop, c.seed))
    limit = 0 if c.tier == "quick" else float(os.environ.get("VERIF_BUDGET", "600"))
    if c.prop == "C06":
        behaviours.refuted(c, "MC_sloppy.cfg", "Exact")
    failing = behaviours.replay(c)
    if failing:
        c.attribute(failing)
    while not c.violations:
        failing = []
        for batch in batches(produce.produce(c.prop, r, n if c.tier == "quick" else 400), 6000):
            failing += c.run(batch)
            if failing and (c.tier == "thorough" or c.seconds() > 300):
                break
            if c.tier == "quick" and c.seconds() > ENOUGH:
                c.notes.append("stopped early, after %.0f s" % c.seconds())
                break
        if failing:
            c.attribute(failing)
        if c.violations or c.seconds() > limit:
            return


def batches(it, size):
    b = []
    for e in it:
        b.append(e)
        if len(b) == size:
            yield b
            b = []
    if b:
        yield b


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    c = Check(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    c.known = known(prop)
    if prop == "C01":
        c01.check(c, float(os.environ.get("VERIF_BUDGET", "600")) if tier == "thorough" else 0)
    elif prop == "C28":
        c28.check(c, float(os.environ.get("VERIF_BUDGET", "600")) if tier == "thorough" else 0)
    else:
        trace_check(c)
    return c.finish()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)

"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = ("TLA+ specification model-checked with TLC; behaviours it generates are replayed in the real converter and "
         "observations of the real converter are validated against it by TLC (trace validation)")
NOTE = ("Exhaustive (TLC) for the model and its generated document family; for the code, exactly the replayed and recorded "
        "conversions are decided (thousands per run, systematic and seeded-random). ")
SPECIAL = {
    "C01": NOTE + "Interleavings: every single preemption point (line granularity) of chosen pairs of calls, plus free-running "
           "threads; histories: generated by TLC from Session.tla.",
    "C06": NOTE + "Arbitrary damaged texts are classified by the character-level reader Scanner.tla; texts it calls ambiguous are skipped.",
    "C07": NOTE + "Nesting up to depth 80, width up to 1000; deeper input is outside the property.",
    "C16": NOTE + "Trusts the pinned symbol tables spec/symbols.json as the intended mapping.",
}
checks = []
for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(l)["id"]
    checks.append({"property": p, "quick_cmd": "python3 -B harness/check.py %s quick" % p,
                   "thorough_cmd": "python3 -B harness/check.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": TRACE, "level": "model_checking",
                   "level_note": SPECIAL.get(p, NOTE + "Trusts TLC and the specification's reading of the property.")})
json.dump({"version": 1, "setup_cmd": "python3 -B harness/setup.py", "checks": checks, "not_applicable": [],
           "notes": "No hooks: the checks use only the public interface of the library, imported from /repo/src."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

"""hunt.py [id ...]: runs the check of each planted bug's property on a scratch
copy of the repository with the bug applied (MML_SRC), and says what it reports."""
import json, os, pathlib, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = pathlib.Path(__file__).resolve().parents[1]
ids = sys.argv[1:] or sorted(d.name for d in (V / "seeded").iterdir())


def hunt(i):
    meta = json.loads((V / "seeded" / i / "meta.json").read_text())
    work = pathlib.Path(tempfile.mkdtemp(prefix="hunt-"))
    try:
        shutil.copytree("/repo", work / "repo", symlinks=True)
        shutil.copytree(V / "harness", work / "v/harness")
        shutil.copytree(V / "spec", work / "v/spec")
        shutil.copy(V / "known-findings.json", work / "v")
        p = subprocess.run(["git", "apply", str(V / "seeded" / i / "patch.diff")], cwd=work / "repo", stderr=subprocess.PIPE)
        if p.returncode:
            return i, "?", "patch does not apply " + p.stderr.decode()[-200:], 0
        t = time.time()
        prop = os.environ.get("PROP") or meta["property"]
        p = subprocess.run([sys.executable, "-B", "harness/check.py", prop], cwd=work / "v",
                           env={**os.environ, "MML_SRC": str(work / "repo/src"), "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
                                "VERIF_TIER": "quick"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode()
        hit = p.returncode == 1 and "VIOLATION property=" + prop in out
        return i, prop, ("CAUGHT" if hit else "MISSED (exit %d)" % p.returncode), time.time() - t, out
    finally:
        shutil.rmtree(work)


miss = 0
with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
    for i, prop, verdict, t, out in ex.map(hunt, ids):
        print(i, prop, verdict, "%.0f s" % t, flush=True)
        if verdict != "CAUGHT":
            miss += 1
            print(out[-1500:])
        elif os.environ.get("SHOW"):
            print(out[:1200])
print("%d of %d missed" % (miss, len(ids)))

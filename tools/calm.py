"""calm.py [diff ...]: applies each edit of calm/ that changes no behaviour to a
scratch copy of the repository and runs the checks (PROPS, or all) on it: they
have to be quiet."""
import json, os, pathlib, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = pathlib.Path(__file__).resolve().parents[1]
names = sys.argv[1:] or sorted(p.stem for p in (V / "calm").glob("*.diff"))
props = os.environ.get("PROPS", "").split() or [c["property"] for c in json.loads((V / "MANIFEST.json").read_text())["checks"]]


def one(job):
    name, prop = job
    work = pathlib.Path(tempfile.mkdtemp(prefix="calm-"))
    try:
        shutil.copytree("/repo", work / "repo", symlinks=True)
        shutil.copytree(V / "harness", work / "v/harness")
        shutil.copytree(V / "spec", work / "v/spec")
        shutil.copy(V / "known-findings.json", work / "v")
        p = subprocess.run(["git", "apply", str(V / "calm" / (name + ".diff"))], cwd=work / "repo", stderr=subprocess.PIPE)
        if p.returncode:
            return name, prop, False, 0, p.stderr.decode()
        t = time.time()
        p = subprocess.run([sys.executable, "-B", "harness/check.py", prop], cwd=work / "v",
                           env={**os.environ, "MML_SRC": str(work / "repo/src"), "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
                                "VERIF_TIER": "quick"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return name, prop, p.returncode == 0, time.time() - t, p.stdout.decode()
    finally:
        shutil.rmtree(work)


bad = 0
with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
    for name, prop, quiet, t, out in ex.map(one, [(n, p) for n in names for p in props]):
        print(name, prop, "quiet" if quiet else "NOT QUIET", "%.0f s" % t, flush=True)
        if not quiet:
            bad += 1
            print(out[-2000:], flush=True)
print("%d not quiet" % bad)

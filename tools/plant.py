"""plant.py PLANTS.py [id ...]: makes /verif/seeded/<id>/ from descriptions of
planted bugs, after confirming each in a scratch copy of /repo.

A description is dict(id, property, needs, breaks, edits=[(file, old, new)], demo)."""
import json, os, pathlib, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

SEEDED = pathlib.Path(__file__).resolve().parents[1] / "seeded"
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
ENV.pop("PYTHONPATH", None)
DEMO = '''#!/bin/bash
# cwd: the repository.  Exit 0: the property holds on these inputs.
D="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec python3 -B "$D/demo.py"
'''
HEAD = '''import sys
from mathml_to_latex.converter import MathMLToLaTeX
from mathml_to_latex.el_to_tex.protocols import InvalidNumberOfChildrenError


def tex(xml):
    return MathMLToLaTeX().convert(xml)


def outcome(xml):
    try:
        return tex(xml)
    except Exception as e:
        return type(e).__name__ + ": " + str(e)


def expect(got, want):
    if got != want:
        print("got ", repr(got))
        print("want", repr(want))
        sys.exit(1)


'''


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)


def plant(p):
    work = pathlib.Path(tempfile.mkdtemp(prefix="plant-"))
    try:
        repo, out = work / "repo", work / "seed"
        shutil.copytree("/repo", repo, symlinks=True)
        out.mkdir()
        (out / "demo.sh").write_text(DEMO)
        (out / "demo.sh").chmod(0o755)
        (out / "demo.py").write_text(HEAD + p["demo"].strip() + "\n", encoding="utf-8")
        (out / "meta.json").write_text(json.dumps({"property": p["property"], "needs": p["needs"],
                                                   "what_it_breaks": p["breaks"]}, indent=1) + "\n")
        r = sh(["bash", str(out / "demo.sh")], repo)
        if r.returncode:
            return "demo fails on the unchanged tree: " + r.stdout.decode()[-300:]
        for f, old, new in p["edits"]:
            f = repo / "src/mathml_to_latex" / f
            s = f.read_text(encoding="utf-8")
            if s.count(old) != 1:
                return "%d occurrences of %r" % (s.count(old), old)
            f.write_text(s.replace(old, new), encoding="utf-8")
        d = sh(["git", "diff"], repo).stdout
        (out / "patch.diff").write_bytes(d)
        t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], repo)
        if t.returncode:
            return "tests fail: " + t.stdout.decode()[-400:]
        r = sh(["bash", str(out / "demo.sh")], repo)
        if r.returncode == 0:
            return "demo passes with the change"
        dest = SEEDED / p["id"]
        if dest.exists():
            shutil.rmtree(dest)
        shutil.copytree(out, dest)
        return "ok   " + r.stdout.decode().strip().replace("\n", " | ")[-160:]
    finally:
        shutil.rmtree(work)


if __name__ == "__main__":
    ps = runpy.run_path(sys.argv[1])["PLANTS"]
    ps = [p for p in ps if not sys.argv[2:] or p["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(8) as ex:
        for p, r in zip(ps, ex.map(plant, ps)):
            print(p["id"], r)

"""replant.py [id ...]: confirms the planted bugs of /verif/seeded again (after /repo changed):
the demonstration passes without the patch and fails with it, and the repository's tests pass."""
import pathlib, shutil, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from plant import SEEDED, sh


def confirm(d):
    work = pathlib.Path(tempfile.mkdtemp(prefix="replant-"))
    try:
        repo = work / "repo"
        shutil.copytree("/repo", repo, symlinks=True)
        demo = ["bash", str(d / "demo.sh")]
        if sh(demo, repo).returncode:
            return "demo fails on the unchanged tree"
        if sh(["git", "apply", str(d / "patch.diff")], repo).returncode:
            return "does not apply"
        if sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], repo).returncode:
            return "tests fail"
        if sh(demo, repo).returncode == 0:
            return "demo passes with the change"
    finally:
        shutil.rmtree(work)


if __name__ == "__main__":
    ds = sorted(d for d in SEEDED.iterdir() if not sys.argv[1:] or d.name in sys.argv[1:])
    with ThreadPoolExecutor(8) as ex:
        for d, r in zip(ds, ex.map(confirm, ds)):
            if r:
                print(d.name, r)
    print(len(ds), "looked at")

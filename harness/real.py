"""Driving the real library, in fresh processes."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))


def environment(hashseed="0"):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/no-pycache",
             PYTHONHASHSEED=str(hashseed), PYTHONUTF8="1")
    e.pop("PYTHONPATH", None)
    return e


def run(script, payload, hashseed="0", timeout=800, options=(), env=()):
    p = subprocess.run([sys.executable, "-B", *options, os.path.join(HERE, script)],
                       input=json.dumps(payload).encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env={**environment(hashseed), **dict(env)}, timeout=timeout)
    if p.returncode != 0:
        raise RuntimeError(f"{script} ended with {p.returncode}: " + p.stderr.decode()[-2000:])
    return json.loads(p.stdout)


def convert_all(xmls, jobs=8, hashseed="0", limit=20, steps=False):
    """Outcomes of converting each document, order kept (limit: seconds for one;
    steps: with the number of lines executed)."""
    n = len(xmls)
    if n == 0:
        return []
    jobs = max(1, min(jobs, n // 20 + 1))
    size = -(-n // jobs)
    parts = [xmls[i:i + size] for i in range(0, n, size)]
    with ThreadPoolExecutor(len(parts)) as ex:
        res = list(ex.map(lambda p: run("worker.py", p, hashseed, env={"MML_LIMIT": str(limit * 3 if steps else limit), "MML_STEPS": str(int(steps))}), parts))
    return [o for part in res for o in part]


def convert_alone(xmls, jobs=8, steps=False):
    """The same, each in a process of its own."""
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(lambda x: convert_all([x], steps=steps)[0], xmls))


def sessions(jobs, workers=8):
    """Logs of jobs (see session.py), spread over processes, order kept."""
    n = max(1, min(workers, len(jobs)))
    parts = [jobs[i::n] for i in range(n)]
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda p: run("session.py", p), parts))
    out = [None] * len(jobs)
    for i, part in enumerate(res):
        out[i::n] = part
    return out

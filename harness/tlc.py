"""Running TLC on the specification modules."""
import os, re, shutil, subprocess, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class Result:
    def __init__(self, rc, out, seconds):
        self.rc, self.out, self.seconds = rc, out, seconds
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.finished = "Model checking completed. No error has been found." in out
        self.violated = re.findall(
            r"(?:Invariant|Action property|Temporal properties?|property) (\w*) ?(?:is|were|was) violated", out)


def run(module, config, env=None, workers=8, heap="6g", timeout=800, extra=()):
    meta = tempfile.mkdtemp(prefix="tlc.")
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Dfile.encoding=UTF-8",
           "-Dstdout.encoding=UTF-8",
           # (a state queue on disk would lose the upper bytes of characters)
           "-Dtlc2.tool.queue.DiskStateQueue.BufSize=4000000", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", meta, "-config", config, *extra, module]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Result(p.returncode, p.stdout.decode("utf-8", "replace"), time.time() - t)


def verdicts(path, n, **kw):
    """Verdicts (other than ok) of the n events in the file, by event id."""
    r = run("Trace.tla", "Trace.cfg", env={"TRACE_FILE": path}, **kw)
    if not r.finished or r.generated != n + 32:
        raise TlcError("trace validation did not complete\n" + r.out[-4000:])
    v = {int(a): b for a, b in re.findall(r'<<"VERDICT", (\d+), "(\w+)">>', r.out)}
    return v, r

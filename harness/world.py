"""Conversions in changing surroundings, with everything they do to them.
stdin: JSON {"root": dir, "docs": [...], "steps": [...]}; a step is
["world", files, settings] or ["call", document (from 1)].
stdout: JSON list with [outcome, effects] for each call.

Effects: audit events (files, processes, network, ...), look-ups of environment
variables, what is printed, and settings of the interpreter that differ after
the call.  Everything happens below the given scratch directory."""
import builtins, codecs, decimal, faulthandler, gc, json, locale, logging, os, random, shutil, signal, sys, tempfile, threading, time, warnings

sys.dont_write_bytecode = True
out = os.dup(1)
printed = tempfile.TemporaryFile()
job = json.load(sys.stdin)
os.dup2(printed.fileno(), 1)
os.dup2(printed.fileno(), 2)
os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
ROOT = job["root"]

watching, effects = False, []
WATCHED = ("open", "os.", "shutil.", "socket.", "subprocess.", "tempfile.", "urllib.", "http.", "ftplib.", "smtplib.", "poplib.", "imaplib.", "telnetlib.",
           "sqlite3.", "ctypes.dlopen", "fcntl.", "mmap.", "pty.", "resource.", "syslog.", "signal.", "time.sleep", "webbrowser.", "glob.",
           "builtins.input", "builtins.breakpoint", "pickle.", "msvcrt.", "pathlib.", "sys.addaudithook", "faulthandler.")
LIBRARY = tuple(os.path.realpath(p) for p in sys.path if p) + tuple(p for p in sys.path if p) + (os.environ.get("MML_SRC", "/repo/src"),)


def watch(event, args):
    if not watching or not event.startswith(WATCHED):
        return
    if event in ("open", "os.listdir", "os.scandir") and args and isinstance(args[0], str) and args[0].startswith(LIBRARY):
        return                              # (a module of the library or Python being imported)
    effects.append("%s %s" % (event, ascii(args[0])[:80] if args else ""))


def looked_up(plain):
    def f(*args, **kw):
        if watching:
            effects.append("asks the %s" % (plain.__qualname__))
        return plain(*args, **kw)
    return f


time.time, time.time_ns, time.localtime, time.ctime = map(looked_up, (time.time, time.time_ns, time.localtime, time.ctime))
os.getpid, os.getcwd, os.urandom, os.stat, os.lstat, os.access = map(looked_up, (os.getpid, os.getcwd, os.urandom, os.stat, os.lstat, os.access))
type(os.environ).__getitem__ = looked_up(type(os.environ).__getitem__)

from worker import convert, MathMLToLaTeX, Hang, alarm    # noqa: E402

signal.signal(signal.SIGALRM, alarm)


MODULES = ("xml", "re", "codecs", "html", "unicodedata", "string", "copy", "json", "math", "os", "builtins", "typing", "enum", "threading")


def attributes():
    """What the attributes of loaded modules are."""
    return {(m, k): id(v) for m, mod in list(sys.modules.items()) if mod is not None and m.split(".")[0] in MODULES
            for k, v in list(vars(mod).items()) if not k.startswith("_") or m == "xml.dom.expatbuilder"}


def umask():
    was = os.umask(0o22)
    os.umask(was)
    return was


def state():
    return {"recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(), "path": list(sys.path),
            "hooks": (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile(), sys.stdout, sys.stderr, sys.stdin, builtins.print, builtins.open),
            "locale": locale.setlocale(locale.LC_ALL), "warnings": list(warnings.filters), "random": random.getstate(), "threads": threading.active_count(),
            "decimal": repr(decimal.getcontext()), "logging": (list(logging.root.handlers), logging.root.level, logging.root.manager.disable),
            "signals": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE, signal.SIGHUP, signal.SIGUSR1)],
            "environment": dict(os.environ._data), "builtins": sorted(vars(builtins)), "digits": sys.get_int_max_str_digits(), "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
            "umask": umask(), "stack size": threading.stack_size(), "fault handler": faulthandler.is_enabled(), "modules": attributes(),
            "tracing": (threading.gettrace(), threading.getprofile()), "error handler": codecs.lookup_error("strict"),
            "directory": os.stat("."), "files": sorted(os.listdir("/proc/self/fd"))}


def surroundings(files, settings):
    """What documents refer to is (or is not) there."""
    os.chdir("/")
    shutil.rmtree(ROOT, ignore_errors=True)
    os.makedirs(os.path.join(ROOT, "other"))
    texts = {"text": "SECRET", "markup": "<mi>S</mi>", "directory": None}
    dtd = "<!ENTITY e 'SECRET'><!ENTITY nbsp '&#160;'><!ENTITY alpha '&#945;'><!ATTLIST mi mathvariant CDATA 'bold'>"
    if files != "nothing":
        for d in (ROOT, os.path.join(ROOT, "other")):
            for name in ("ent.txt", "x.dtd", "p.ent", "x.css", "x.xsl", "inc.xml", "mml"):
                p = os.path.join(d, name)
                if files == "directory":
                    os.mkdir(p)
                    continue
                with open(p, "w") as f:
                    f.write(dtd if files == "markup" and name in ("x.dtd", "p.ent", "mml") else texts[files])
    other = settings == "other"
    os.chdir(os.path.join(ROOT, "other") if other else ROOT)
    os.environ.update({"HOME": ROOT if other else "/", "TZ": "Asia/Tokyo" if other else "UTC", "LANG": "de_DE.UTF-8" if other else "C", "DEBUG": "1" if other else "",
                       "MATHML": "1" if other else "", "MATHML_TO_LATEX": "1" if other else "", "VERBOSE": "1" if other else ""})
    sys.argv[1:] = ["--debug"] if other else []
    sys.setrecursionlimit(3000 if other else 1500)
    random.seed(2 if other else 1)
    decimal.getcontext().prec = 5 if other else 28
    warnings.simplefilter("error" if other else "default")
    gc.enable()


def call(xml, conv):
    global watching
    effects.clear()
    before, size = state(), os.fstat(1).st_size
    signal.alarm(20)
    watching = True
    try:
        o = convert(xml, conv)
    finally:
        watching = False
        signal.alarm(0)
    sys.stdout.flush(), sys.stderr.flush()
    found = list(dict.fromkeys(effects))[:5]
    found += ["prints"] * (os.fstat(1).st_size != size) + changes(before)
    return [o, found]


def changes(before):
    after = state()
    return ["changes the " + k for k in before if (before[k] != after[k] if k != "modules" else any(after[k].get(a) != v for a, v in before[k].items()))]


def main():
    before = state()
    for x in ("<math><mi>x</mi></math>", "<math a=1><mi>x</mi></math>", "<math><mfrac/></math>", "<math>"):
        convert(x)                          # (what is imported or compiled once)
    first = changes(before)                 # (and what that changed for good)
    sys.addaudithook(watch)
    res, conv = [], MathMLToLaTeX()
    try:
        for s in job["steps"]:
            if s[0] == "world":
                surroundings(*s[1:])
                conv = MathMLToLaTeX()
            else:
                res.append(call(job["docs"][s[1] - 1], conv))
                res[-1][1] += first
                first = []
    finally:
        os.chdir("/")
        shutil.rmtree(ROOT, ignore_errors=True)
    with os.fdopen(out, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()

"""Runs conversions in the real library.  stdin: JSON list of documents;
stdout: JSON list of outcomes.  Only the public interface is used."""
import json, os, signal, sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("MML_SRC", "/repo/src"))
from mathml_to_latex.converter import MathMLToLaTeX
from mathml_to_latex.el_to_tex.protocols import InvalidNumberOfChildrenError


class Hang(BaseException):
    pass


def alarm(signum, frame):
    raise Hang()


def convert(xml, converter=None):
    try:
        tex = (converter or MathMLToLaTeX()).convert(xml)
    except Hang:
        return dict(ok=False, tex="", count=False, cls="Hang", msg="no answer within the time limit")
    except InvalidNumberOfChildrenError as e:
        return dict(ok=False, tex="", count=True, cls=type(e).__name__, msg=str(e))
    except Exception as e:
        return dict(ok=False, tex="", count=False, cls=type(e).__name__, msg=str(e)[:300])
    if not isinstance(tex, str):
        return dict(ok=False, tex="", count=False, cls="not a str", msg=repr(tex)[:300])
    return dict(ok=True, tex=tex, count=False, cls="", msg="")


class TooMuch(BaseException):
    pass


MOST = 4000000      # lines
SRC = os.path.join(os.environ.get("MML_SRC", "/repo/src"), "mathml_to_latex")


def counted(xml):
    """The outcome, with the number of lines of the library that were executed."""
    steps = 0

    def line(frame, what, arg):
        nonlocal steps
        if what == "line":
            steps += 1
            if steps > MOST:
                raise TooMuch()
        return line

    def call(frame, what, arg):
        return line if frame.f_code.co_filename.startswith(SRC) else None
    sys.settrace(call)
    try:
        o = convert(xml)
    except TooMuch:
        o = dict(ok=False, tex="", count=False, cls="TooMuch", msg="more than %d lines" % MOST)
    finally:
        sys.settrace(None)
    return dict(o, steps=steps)


def main():
    count = os.environ.get("MML_STEPS") == "1"
    limit = int(os.environ.get("MML_LIMIT", "20"))
    signal.signal(signal.SIGALRM, alarm)
    res, hangs = [], 0
    if count:
        counted("<math><mi>x</mi></math>")      # (what is done once only)
    for xml in json.load(sys.stdin):
        # (what hangs often is not waited for as long every time)
        signal.alarm(limit if hangs < 3 else min(limit, 4) if hangs < 10 else 1)
        res.append(counted(xml) if count else convert(xml))
        signal.alarm(0)
        hangs += res[-1]["cls"] == "Hang"
    json.dump(res, sys.stdout)


if __name__ == "__main__":
    main()

"""A long-lived interpreter in another mode: reads {"job", "case"} lines, answers with the outcome of each."""
import decimal
import json
import os
import re
import signal
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def plain(text):
    return [re.sub("0x[0-9a-f]{9,}", "@", x) for x in text]


def main():
    mode = json.loads(sys.argv[1])
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # whatever the package prints does not get among the answers
    import logging
    import warnings

    import core
    import talk
    from props import c37
    from threads import outcome
    if mode.get("first"):
        sys.path.insert(0, core.REPO)
        __import__(mode["first"])
    if mode.get("warnings"):
        warnings.simplefilter("error")
    core.sut()
    root = logging.getLogger()
    if mode.get("logging") == "off":
        logging.disable(logging.CRITICAL)
    elif mode.get("logging") == "default":
        root.handlers[:] = []
        root.setLevel(logging.WARNING)
    elif mode.get("logging") == "file":
        root.handlers[:] = [logging.StreamHandler(open(os.devnull, "w"))]
    if mode.get("decimal"):
        decimal.setcontext(decimal.Context(prec=mode["decimal"][0], rounding=mode["decimal"][1], traps=[decimal.FloatOperation, decimal.Inexact]))
    signal.signal(signal.SIGVTALRM, core._alarm)
    for line in sys.stdin:
        d = json.loads(line)
        signal.setitimer(signal.ITIMER_VIRTUAL, core.CASE_CPU_S)
        try:
            if d["job"] == "transcript":
                text = []
                wrong = outcome(lambda: talk.transcript(d["case"], text))
                a = {"text": plain(text + ([wrong] if wrong else []))}
            else:
                a = {"wrong": outcome(lambda: c37.JOBS[d["job"]][0](d["case"], core.Ctx()))}
        except core.Hang:
            a = {"text": ["no answer"], "wrong": "no answer"}
        except BaseException:
            a = {"error": traceback.format_exc()}
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        out.write(json.dumps(a) + "\n")
        out.flush()


main()

"""Development aid: a reduced run of several properties in one process.  usage: fast.py SCALE SEED C05 C06 ...
Prints the first property that reports a violation."""
import importlib
import os
import signal
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import core  # noqa: E402


def main():
    scale, seed, props = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    signal.signal(signal.SIGVTALRM, core._alarm)
    core.CASE_CPU_S = 10
    core.SHRINK_S = 0
    try:
        core.sut()
    except BaseException as e:
        print("KILLED import %r" % e)
        return
    err = []
    for p in props:
        mod = importlib.import_module("props." + p.lower())
        for sub in mod.SUBS:
            if sub.runner:
                continue
            sub.quick = max(5, sub.quick // scale)
            ctx = core.Ctx()
            try:
                if sub.cases:
                    fail = None
                    cases = list((sub.quick_cases or sub.cases)())
                    step = max(1, min(scale, len(cases) // 8))
                    for c in cases[seed % step::step]:
                        msg, _ = core.run_case(sub, c, ctx)
                        if msg:
                            fail = {"message": msg}
                            break
                else:
                    fail = core._run_sub(sub, "quick", seed, 0, 1, ctx)
            except BaseException as e:
                err.append("%s/%s %r" % (p, sub.name, e))
                continue
            if fail:
                print("KILLED %s/%s %s" % (p, sub.name, fail["message"][:160]))
                return
    print("SURVIVED %s" % "; ".join(err))


main()
sys.stdout.flush()
os._exit(0)

"""Coverage-guided search (Atheris/libFuzzer) behind C21: fuzz21.py OUT TMP RUNS SEED."""
import json
import os
import signal
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import atheris  # noqa: E402

import core  # noqa: E402

OUT, TMP, RUNS, SEED = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
with atheris.instrument_imports(include=["knx_stack"]):
    core.sut()
from props import c21  # noqa: E402

ctx = core.Ctx()
sub = c21.SUBS[2]


def finish(fail):
    with open(OUT + ".tmp", "w") as f:
        json.dump({"evaluations": ctx.evaluations, "hashes": [h.hex() for h in ctx.hashes], "labels": ctx.labels, "samples": ctx.samples, "fail": fail}, f)
    os.rename(OUT + ".tmp", OUT)
    os._exit(0)


def one(data):
    case = c21.fuzz_case(bytes(data))
    msg, _ = core.run_case(sub, case, ctx)
    if msg:
        finish({"sub": sub.name, "case": shrink(case), "message": msg})
    if ctx.evaluations >= RUNS:
        finish(None)


def shrink(case):
    """Drops inputs, then octets, while the case still fails."""
    def fails(c):
        return core.run_case(sub, c, core.Ctx())[0] is not None
    best = case
    again = True
    while again:
        again = False
        ops = best["ops"]
        for i in range(len(ops)):
            c = dict(best, ops=ops[:i] + ops[i + 1:])
            if fails(c):
                best, again = c, True
                break
        else:
            for i, op in enumerate(ops):
                c = dict(best, ops=ops[:i] + [["raw", op[1][:-2]]] + ops[i + 1:])
                if op[1] and fails(c):
                    best, again = c, True
                    break
    return best


signal.signal(signal.SIGVTALRM, core._alarm)
corpus = os.path.join(TMP, "corpus")
os.mkdir(corpus)
for i, b in enumerate(c21.fuzz_corpus()):
    with open(os.path.join(corpus, "%03d" % i), "wb") as f:
        f.write(b)
atheris.Setup([sys.argv[0], corpus, "-seed=%d" % SEED, "-max_len=160", "-runs=%d" % (RUNS * 2), "-handle_segv=0", "-rss_limit_mb=4096", "-print_final_stats=0",
               "-artifact_prefix=" + TMP + "/"], one)
atheris.Fuzz()
finish(None)

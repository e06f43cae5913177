import json
import logging
import os
import re
import select
import signal

from hypothesis import strategies as st

import gen
import talk
from core import REPO, Ctx, Sub, Violation, require, sut, monotonic
from props import c01, c03, c04, c05, c06, c07, c08, c09, c10, c12, c13, c14, c15, c16, c17, c18, c19, c20, c22, c27, c28, c29, c30, c31
from threads import Abort, Turns, outcome

ID = "C34"
ASSUME = ["Each thread uses stacks, tables and messages of its own, or tables which no thread changes.",
          "Threads change over between two lines or bytecode instructions of the package; library calls made by it run undivided."]
LIMIT = 90

# what a thread does: one case of another property, with that property's own oracle
JOBS = {
    "hex": (c01.check_consume, c01.s_consume), "addresses": (c03.check, lambda: c03.SUBS[0].strategy()), "associations": (c04.check, lambda: c04.SUBS[0].strategy()),
    "telegrams": (c05.check, c05.cases), "values": (c05.check_values, c05.value_cases), "requests": (c06.check, c06.cases), "fields": (c07.check_fields, c07.s_fields),
    "two stacks": (c08.check, c08.cases), "property requests": (c09.check_prop, c09.s_prop), "properties": (c10.check, c10.cases), "numbers": (c12.check_number, c12.numbers),
    "assignments": (c13.check, c13.cases), "descriptions": (c14.check, c14.values), "from the bus": (c14.check_bus, c14.bus), "incoming counter": (c15.check, c15.cases),
    "outgoing counter": (c16.check, c16.cases), "channel": (c17.check, c17.cases), "control requests": (c18.check, c18.cases), "encoding": (c19.check_encode, c19.encodes),
    "padding": (c19.check_padding, c19.paddings), "frames": (c20.check, c20.cases), "history": (c22.check, c22.cases), "link layer": (c27.check, c27.cases),
    "several stacks": (c28.check, c28.cases), "printing": (c29.check, c29.cases), "printed requests": (c29.check_request, c29.requests),
    "dictionaries": (c30.check, c30.cases), "datapoint table": (c31.check, c31.cases),
}
BUSY = ["telegrams", "values", "requests", "frames", "several stacks", "history", "properties", "two stacks", "incoming counter", "descriptions"]


def in_child(f, limit=LIMIT):
    """f's result from a process in which the package has done nothing yet; None if it does not end."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            os.close(r)
            try:
                data = {"ok": f()}
            except BaseException as e:
                import traceback
                data = {"error": "".join(traceback.format_exception(e))[-4000:]}
            b = json.dumps(data).encode()
            while b:
                b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    out = b""
    end = monotonic() + limit
    while True:
        if not select.select([r], [], [], max(0, end - monotonic()))[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return None
        x = os.read(r, 65536)
        if not x:
            break
        out += x
    os.close(r)
    os.waitpid(pid, 0)
    data = json.loads(out)
    if "error" in data:
        raise RuntimeError("in a child process: " + data["error"])
    return data["ok"]


def together(jobs, case):
    logging.disable(logging.CRITICAL)  # the handlers' locks are not the package's
    notes = {}

    def body(i):
        def g():
            notes[i] = outcome(jobs[i])
        return g

    t = Turns([body(i) for i in range(len(jobs))], case["schedule"], os.path.realpath(REPO) + os.sep, case["instructions"])
    failed = t.run()
    for e in failed.values():
        if not isinstance(e, Abort):
            raise e
    return {"notes": [notes.get(i, "no progress") for i in range(len(jobs))], "late": t.late, "switches": t.switches, "events": t.events}


def alone(jobs):
    logging.disable(logging.CRITICAL)
    return [outcome(j) for j in jobs]


def judge(build, case, ctx):
    """`build` gives the threads' work, anew for each run."""
    sut()
    r = in_child(lambda: together(build(), case))
    if r is None or any(r["notes"]):
        one = in_child(lambda: [alone([build()[i]])[0] for i in range(len(build()))])
        if one is None or any(one):
            ctx.label("fails without threads")  # which is another property's concern
            return
        require(r is not None, "the threads did not end, each alone does")
        bad = [(i, n) for i, n in enumerate(r["notes"]) if n]
        raise Violation("thread %d of %d, which alone is right: %s" % (bad[0][0], len(r["notes"]), bad[0][1]))
    ctx.label("change-overs", r["switches"])
    ctx.label("threads", len(r["notes"]))
    ctx.nontrivial(r["switches"] > 9)


def check(case, ctx):
    def build():
        return [lambda k=k, c=c: JOBS[k][0](c, Ctx()) for k, c in case["jobs"]]

    for k, _ in case["jobs"]:
        ctx.label(k)
    judge(build, case, ctx)


def check_shared(case, ctx):
    """Every thread has stacks of its own over tables they share and none changes."""
    def build():
        worlds = c28.Program(dict(case["common"], ops=[]), Ctx()).worlds

        def work(states, ops):
            def g():
                p = c28.Program.over(worlds, dict(case["common"], states=states, ops=ops), Ctx())
                for op in ops:
                    p.op(op)
                    p.check(op[0])
            return g

        return [work(s, o) for s, o in case["programs"]]

    judge(build, case, ctx)


def text_of(case, out):
    """What the program of one thread prints."""
    wrong = outcome(lambda: talk.transcript(case, out))
    return [re.sub("0x[0-9a-f]{9,}", "@", x) for x in out + ([wrong] if wrong else [])]


def check_traffic(case, ctx):
    """Every thread's requests, frames and values give the text they give without the others."""
    def run():
        outs = [[] for _ in case["programs"]]
        texts = {}

        def job(i):
            def g():
                texts[i] = text_of(case["programs"][i], outs[i])
            return g

        r = together([job(i) for i in range(len(outs))], case)
        return dict(r, texts=[texts.get(i, outs[i]) for i in range(len(outs))])

    sut()
    r = in_child(run)
    want = in_child(lambda: [text_of(p, []) for p in case["programs"]])
    if want is None:
        ctx.label("fails without threads")
        return
    require(r is not None, "the threads did not end, each alone does")
    for i, (got, exp) in enumerate(zip(r["texts"], want)):
        for a, b in zip(got, exp):
            require(a == b, "thread %d of %d, which alone gets %s, gets %s", i, len(want), b, a)
        require(len(got) == len(exp), "thread %d of %d, which alone gets %d results, gets %d", i, len(want), len(exp), len(got))
    ctx.label("change-overs", r["switches"])
    ctx.nontrivial(r["switches"] > 9 and sum(map(len, want)) > 20)


SCHEDULE = st.lists(st.tuples(gen.weighted((3, st.integers(1, 4)), (3, st.integers(1, 25)), (1, st.integers(1, 300))), st.integers(0, 2)).map(list), min_size=1, max_size=12)


@st.composite
def cases(draw):
    n = draw(st.sampled_from([2, 2, 2, 3]))
    name = st.one_of(st.sampled_from(BUSY), st.sampled_from(sorted(JOBS)))
    if draw(st.integers(0, 3)):
        k = draw(name)
        kinds = [k] * n
    else:
        kinds = [draw(name) for _ in range(n)]
    jobs = [[k, draw(JOBS[k][1]())] for k in kinds]
    if kinds[1:] == kinds[:-1] and draw(st.integers(0, 2)) == 0:
        jobs = [jobs[0]] * n  # the same work, so that first uses coincide
    return {"jobs": jobs, "schedule": draw(SCHEDULE), "instructions": draw(st.sampled_from([False, False, True]))}


@st.composite
def shared(draw):
    first = draw(c28.cases())
    programs = []
    for _ in range(draw(st.sampled_from([2, 2, 3]))):
        c = draw(c28.cases(first["tables"], first["worlds"]))
        programs.append([c["states"], [o for o in c["ops"] if o[0] != "table"]])
    return {"common": {k: first[k] for k in ("tables", "worlds", "iterators")} | {"states": []}, "programs": programs,
            "schedule": draw(SCHEDULE), "instructions": draw(st.sampled_from([False, False, True]))}


@st.composite
def traffic(draw):
    """Threads which do much of the same at about the same time, changing over in short steps."""
    kind = draw(st.sampled_from(["encode", "encode", "encode", "decode", "value", ""]))
    programs = []
    for _ in range(draw(st.sampled_from([2, 2, 3]))):
        p = draw(talk.texts())
        if kind == "encode":
            p["ops"] = [["encode", r] for r in draw(gen.some(c22.requests(p["medium"]), 5, 10))]
        elif kind == "decode":
            p["ops"] = [["decode", f] for f in draw(gen.some(c20.deliverable(), 4, 8))]
        elif kind:
            p["ops"] = ([o for o in p["ops"] if o[0] == kind] * 4)[:8]
        programs.append(p)
    step = draw(st.integers(1, 3))
    return {"programs": programs, "instructions": draw(st.sampled_from([False, False, False, True])),
            "schedule": [[draw(st.integers(1, 60)), 0]] + [[step, 0]] * draw(st.sampled_from([0, 20, 80])) + draw(SCHEDULE)}


SUBS = [Sub("own tables", check, "ten change-overs", cases, quick=640, times=1), Sub("shared tables", check_shared, "ten change-overs", shared, quick=320, times=1), Sub("traffic", check_traffic, "ten change-overs and twenty results", traffic, quick=480, times=1)]

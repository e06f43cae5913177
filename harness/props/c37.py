import json
import os
import select
import subprocess
import sys

from hypothesis import strategies as st

from core import HERE, Sub, require
from props import c23, c24, c34
from talk import texts

ID = "C37"
ASSUME = ["What goes to the log may depend on its configuration; addresses of objects in printed text are not compared."]
JOBS = dict(c34.JOBS, **{"tunnelling client": (c23.check, c23.cases), "USB client": (c24.run, c24.cases)})
# how the other interpreters differ from the first one
MODES = [
    {"seed": "0", "args": []},
    {"seed": "1", "args": ["-O"], "logging": "default"},
    {"seed": "2", "args": ["-OO"], "logging": "off", "env": {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "TZ": "Asia/Kolkata"}},
    {"seed": "3", "args": [], "logging": "file", "warnings": True, "first": "knx_stack.client.usbhid"},
    {"seed": "77", "args": ["-b", "-X", "dev"], "logging": "default", "decimal": [3, "ROUND_UP"], "first": "knx_stack.datapointtypes", "env": {"COLUMNS": "20"}},
]
_servers = {}


def server(i):
    if i not in _servers:
        m = MODES[i]
        env = dict(os.environ, PYTHONHASHSEED=m["seed"], **m.get("env", {}))
        _servers[i] = subprocess.Popen([sys.executable, "-B"] + m["args"] + [os.path.join(HERE, "modes.py"), json.dumps(m)], env=env,
                                       stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    return _servers[i]


def ask(i, job, case):
    s = server(i)
    s.stdin.write(json.dumps({"job": job, "case": case}).encode() + b"\n")
    s.stdin.flush()


def answer(i):
    line = _servers[i].stdout.readline() if select.select([_servers[i].stdout], [], [], 300)[0] else b""
    if not line:
        s = _servers.pop(i)
        s.kill()
        raise RuntimeError("no answer of the interpreter in mode %r" % (MODES[i],))
    a = json.loads(line)
    if "error" in a:
        raise RuntimeError("in mode %r: %s" % (MODES[i], a["error"]))
    return a


def check_text(case, ctx):
    for i in range(len(MODES)):
        ask(i, "transcript", case)
    texts = [answer(i)["text"] for i in range(len(MODES))]
    for i, t in enumerate(texts):
        for a, b in zip(texts[0], t):
            require(a == b, "in mode %s the result is %s, in mode %s it is %s", json.dumps(MODES[0]), a, json.dumps(MODES[i]), b)
        require(len(t) == len(texts[0]), "other results in mode %s", json.dumps(MODES[i]))
    ctx.label("results", len(texts[0]))
    ctx.nontrivial(len(texts[0]) > 5)


def check(case, ctx):
    for i in range(len(MODES)):
        ask(i, case["job"], case["case"])
    wrong = [answer(i)["wrong"] for i in range(len(MODES))]
    ctx.label(case["job"])
    if wrong[0]:
        ctx.label("wrong in the first mode too")  # another property's matter
        return
    for m, w in zip(MODES, wrong):
        require(w is None, "in mode %s: %s", json.dumps(m), w)
    ctx.nontrivial()


@st.composite
def cases(draw):
    job = draw(st.sampled_from(sorted(JOBS)))
    return {"job": job, "case": draw(JOBS[job][1]())}


SUBS = [Sub("text", check_text, "at least five results", texts, quick=1200, times=1), Sub("other oracles", check, "right in the first mode", cases, quick=1600, times=1)]

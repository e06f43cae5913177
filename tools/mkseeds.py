"""Builds /verif/seeded/<id> from the change descriptions in tools/seeds/*.py.

mkseeds.py ID...      (or "all")   writes the folders and confirms each change:
applies, touches original lines, tests still pass, demo passes without and
fails with it; then runs the property's check against the changed copy.
"""
import json, os, shutil, subprocess, sys, glob, importlib.util

SEEDED = "/verif/seeded"
SCR = "/tmp/sd"
REPO = "/repo"
PY = "/opt/venv/bin/python"


def load():
    out = {}
    for f in sorted(glob.glob("/verif/tools/seeds/*.py")):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


PRE = """import sys, os
sys.path.insert(0, os.getcwd())
import logging
logging.disable(logging.CRITICAL)
import knx_stack
from knx_stack import *
"""


def run(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout.decode(errors="replace")


def originals(path):
    rc, o = run(["git", "blame", "-s", "-l", path], cwd=REPO)
    base = run("git rev-list --max-parents=0 HEAD", cwd=REPO)[1].strip()
    return [l.split()[0].lstrip("^")[:39] == base[:39] for l in o.splitlines()]


def build(s):
    d = f"{SEEDED}/{s['id']}"
    cp = f"{SCR}/{s['id']}"
    shutil.rmtree(cp, ignore_errors=True)
    os.makedirs(SCR, exist_ok=True)
    subprocess.check_call(["cp", "-a", REPO, cp])
    for f, old, new in s["edits"]:
        p = f"{cp}/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    rc, diff = run(["git", "diff"], cwd=cp)
    # which removed lines are original
    rc, d0 = run(["git", "diff", "-U0"], cwd=cp)
    cur = None; orig = []
    for l in d0.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]; om = originals(cur)
        elif l.startswith("@@"):
            a = l.split()[1][1:]
            n, c = (a.split(",") + ["1"])[:2]
            orig += [om[int(n) - 1 + i] for i in range(int(c))]
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/meta.json", "w").write(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
    if "demo_c" in s:
        demo = s["demo_c"]
    else:
        demo = PRE + s["demo"]
    open(f"{d}/demo.py", "w").write(demo)
    open(f"{d}/demo.sh", "w").write('#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
    os.chmod(f"{d}/demo.sh", 0o755)
    env = {"PYTHONDONTWRITEBYTECODE": "1"}
    r0, o0 = run(["sh", f"{d}/demo.sh"], cwd=REPO, env=env, timeout=300)
    r1, o1 = run(["sh", f"{d}/demo.sh"], cwd=cp, env=env, timeout=300)
    rt, ot = run(f"{PY} -m pytest -q -p no:cacheprovider --continue-on-collection-errors --doctest-modules --doctest-glob='*.rst' knx_stack docs/source/intro.rst", cwd=cp, env=env)
    tests = ot.strip().splitlines()[-1]
    ok = r0 == 0 and r1 != 0 and "75 passed" in tests and any(orig)
    rc, oc = run(["/verif/check", s["property"]], cwd="/verif", env={"VERIF_REPO": cp, "VERIF_SEED": "1"})
    viol = [l for l in oc.splitlines() if l.startswith("VIOLATION")]
    print(f"{s['id']:28s} {s['property']} valid={ok} (demo {r0}/{r1}, {tests}, orig {sum(orig)}/{len(orig)}) check rc={rc} {viol[:1]}", flush=True)
    if not ok:
        print(o0[-600:], o1[-600:], ot[-600:] if "75 passed" not in tests else "")
    elif rc != 1:
        print(oc[-800:])
    shutil.rmtree(cp, ignore_errors=True)
    return ok, rc


if __name__ == "__main__":
    assert not run(["git", "status", "--porcelain"], cwd=REPO)[1].strip(), "uncommitted changes in /repo"
    seeds = load()
    ids = list(seeds) if sys.argv[1:] == ["all"] else sys.argv[1:]
    from concurrent.futures import ThreadPoolExecutor
    res = {}
    with ThreadPoolExecutor(2) as ex:
        for i, r in zip(ids, ex.map(lambda i: build(seeds[i]), ids)):
            res[i] = r
    bad = [i for i, r in res.items() if not r[0]]
    miss = [i for i, r in res.items() if r[0] and r[1] != 1]
    print("INVALID", bad)
    print("MISSED", miss)

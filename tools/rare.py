"""Development aid: plants, one at a time in a scratch copy, changes that corrupt a function's result under a rare condition.
usage: rare.py OUT.jsonl JOBS [SAMPLE] [SEED] [only substring of file]
Prints which survive the checks."""
import ast
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import threading

REPO = "/repo"
HERE = os.path.dirname(os.path.abspath(__file__))
FAST = os.path.join(HERE, "fast.py")
PROPS = ["C%02d" % i for i in (5, 6, 8, 10, 20, 22, 15, 16, 17, 9, 18, 19, 1, 2, 3, 4, 7, 11, 12, 13, 14, 21, 23, 24, 25, 27, 28, 29, 30, 31, 33, 36)]

HELPER = '''
import enum
import os
PRED = os.environ.get("RARE_PRED", "")
FN = os.environ.get("RARE_FN", "")
SURVEY = os.environ.get("RARE_SURVEY", "")
fired = set()
last = {}
calls = {}

def ints(x, depth=0):
    if isinstance(x, bool) or x is None:
        return []
    if isinstance(x, int):
        return [int(x)]
    if isinstance(x, (list, tuple)) and depth < 2:
        return [i for y in x for i in ints(y, depth + 1)]
    out = []
    for n in ("value", "free_style", "sequence_counter_local", "sequence_counter_remote", "communication_channel_id"):
        try:
            v = getattr(x, n, None)
        except Exception:
            v = None
        if isinstance(v, int):
            out.append(int(v))
    return out

def lists(args):
    return [x for x in args if isinstance(x, (list, tuple))]

def holds(PRED, r, args, fn=''):
    i = [y for x in args for y in ints(x)]
    ls = lists(args)
    if PRED == "len20": return any(len(x) >= 20 for x in ls)
    if PRED == "len40": return any(len(x) >= 40 for x in ls)
    if PRED == "list3": return any(len(x) == 3 for x in ls)
    if PRED == "res3": return isinstance(r, list) and len(r) >= 3
    if PRED == "res5": return isinstance(r, list) and len(r) >= 5
    if PRED == "high": return any(x >= 0x8000 for x in i)
    if PRED == "ff": return 255 in i
    if PRED == "big": return any(255 < x for x in i)
    if PRED == "wide": return any(65535 < x for x in i)
    if PRED == "rem255": return any(getattr(a, "sequence_counter_remote", 0) == 255 or getattr(a, "sequence_counter_local", 0) == 255 for a in args)
    if PRED == "last0": return any(ints(x)[-1:] == [0] for x in ls)
    if PRED == "last80": return any(ints(x)[-1:] >= [128] for x in ls)
    if PRED == "rnd": return bool(i) and (sum(i) * 2654435761 >> 7) % 61 == 3
    if PRED == "repeat":
        k = (fn, id(args[0]) if args else 0)
        v = repr([ints(a) for a in args[1:]])
        same = last.get(k) == v and len(args) > 1
        last[k] = v
        return same
    if PRED == "many":
        k = (fn, id(args[0]) if args else 0)
        calls[k] = calls.get(k, 0) + 1
        return calls[k] % 40 == 0
    raise RuntimeError(PRED)

def corrupt(r):
    if isinstance(r, bool): return not r
    if isinstance(r, enum.Enum):
        m = list(type(r))
        return m[(m.index(r) + 1) % len(m)]
    if r is None or isinstance(r, list) and not r: raise KeyError("rare")
    if type(r) is int: return r ^ 1
    if isinstance(r, str): return r + "0"
    if isinstance(r, tuple) and r and type(r) is tuple: return (corrupt(r[0]),) + r[1:]
    if isinstance(r, list) and r: return type(r)(r[:-1])
    if isinstance(r, bytes) and r: return r[:-1]
    if isinstance(r, float): return r + 1.0
    if hasattr(r, "value") and isinstance(getattr(r, "value"), int) and not hasattr(r, "name"):
        try:
            r.value = r.value ^ 1
        except Exception:
            pass
        return r
    return r

hits = [0]
PREDS = "len20 len40 list3 res3 res5 high ff big wide rem255 last0 last80 rnd repeat many".split()

busy = []

def rare(fn, r, args):
    if busy or not SURVEY and fn != FN:
        return r
    busy.append(1)
    try:
        return _rare(fn, r, args)
    finally:
        busy.pop()

def _rare(fn, r, args):
    if SURVEY:
        for p in PREDS:
            if (fn, p) not in fired and holds(p, r, args, fn):
                fired.add((fn, p))
                with open(SURVEY, "a") as f:
                    f.write(fn + " " + p + "\\n")
        return r
    if fn != FN or not holds(PRED, r, args):
        return r
    was = repr(r)
    c = corrupt(r)
    hits[0] += 1
    if hits[0] == 1:
        open(os.environ["RARE_LOG"], "w").write(was[:100] + " -> " + repr(c)[:100] + " " + repr(args)[:300])
    return c
'''
PREDS = ["len20", "len40", "list3", "res3", "res5", "high", "ff", "big", "wide", "rem255", "last0", "last80", "rnd", "repeat", "many"]


def functions():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "knx_stack")):
        if "tests" in d or "__pycache__" in d:
            continue
        for f in fs:
            if f.endswith(".py"):
                p = os.path.relpath(os.path.join(d, f), REPO)
                t = ast.parse(open(os.path.join(REPO, p)).read())
                for i, n in enumerate(ast.walk(t)):
                    if isinstance(n, ast.FunctionDef) and n.name not in ("__init__", "__repr__", "__str__") and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)) \
                            and any(isinstance(x, ast.Return) and x.value is not None for x in ast.walk(n)) and not n.args.vararg and not n.args.kwonlyargs:
                        out.append((p, i, n.name))
    return out


def plant(src, index, tag):
    t = ast.parse(src)
    for i in index if isinstance(index, list) else [index]:
        plant1(list(ast.walk(ast.parse(src))), t, i, tag)
    return ast.unparse(ast.fix_missing_locations(t))


def plant1(same, t, index, tag):
    n = same[index]
    tag += ":%d" % index
    n = [x for x in ast.walk(t) if isinstance(x, ast.FunctionDef) and (getattr(x, 'lineno', 0), getattr(x, 'col_offset', 0)) == (n.lineno, n.col_offset) and x.name == n.name][0]
    names = [a.arg for a in n.args.args]
    inner = ast.FunctionDef(name="_was", args=ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in names], kwonlyargs=[], kw_defaults=[], defaults=[]),
                            body=n.body, decorator_list=[], returns=None, type_params=[])
    tail = ast.parse("from knx_stack._rare import rare\nreturn rare(%r, _was(%s), (%s))" % (tag, ", ".join(names), ", ".join(names) + ("," if names else ""))).body
    n.body = [inner] + tail


def survey(fired):
    """Which predicates ever hold in which functions."""
    d = "/tmp/rare/survey"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", REPO, d])
    open(os.path.join(d, "knx_stack/_rare.py"), "w").write(HELPER)
    by = {}
    for p, index, name in functions():
        by.setdefault(p, []).append(index)
    for p, index in by.items():
        open(os.path.join(d, p), "w").write(plant(open(os.path.join(REPO, p)).read(), index, p))
    env = dict(os.environ, VERIF_REPO=d, PYTHONDONTWRITEBYTECODE="1", VH_TMP=d, RARE_SURVEY=fired)
    ps = [subprocess.Popen(["python3-vt", FAST, "6", "3"] + PROPS[i::8], env=env, stdout=subprocess.PIPE) for i in range(8)]
    for x in ps:
        print(x.communicate()[0].decode()[-300:], flush=True)
    shutil.rmtree(d)


def main():
    out, jobs = sys.argv[1], int(sys.argv[2])
    sample = int(sys.argv[3]) if len(sys.argv) > 3 else 10 ** 9
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    only = sys.argv[5] if len(sys.argv) > 5 else ""
    fired = "/tmp/rare/fired.txt"
    if not os.path.exists(fired):
        survey(fired)
    could = set(tuple(l.split()) for l in open(fired))
    fs = [f for f in functions() if only in f[0]]
    todo = [(f, p) for f in fs for p in PREDS if ("%s:%d" % f[:2], p) in could]
    o = open("/tmp/rare/never.txt", "w")
    for f in fs:
        o.write("%s %s: %s\n" % (f[0], f[2], " ".join(p for p in PREDS if ("%s:%d" % f[:2], p) not in could)))
    o.close()
    print(len(fs), len(todo), flush=True)
    random.Random(seed).shuffle(todo)
    todo = todo[:sample]
    q = queue.Queue()
    for x in enumerate(todo):
        q.put(x)
    lock = threading.Lock()
    o = open(out, "a")

    def work(w):
        d = "/tmp/rare/w%d" % w
        shutil.rmtree(d, ignore_errors=True)
        subprocess.check_call(["cp", "-a", REPO, d])
        open(os.path.join(d, "knx_stack/_rare.py"), "w").write(HELPER)
        while True:
            try:
                i, ((p, index, name), pred) = q.get_nowait()
            except queue.Empty:
                break
            src = open(os.path.join(REPO, p)).read()
            open(os.path.join(d, p), "w").write(plant(src, index, p))
            env = dict(os.environ, VERIF_REPO=d, RARE_PRED=pred, RARE_FN="%s:%d" % (p, index), PYTHONDONTWRITEBYTECODE="1", VH_TMP=d, RARE_LOG=d + "/hit")
            if os.path.exists(d + "/hit"):
                os.remove(d + "/hit")
            try:
                r = subprocess.run(["python3-vt", FAST, "6", "3"] + PROPS, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=900).stdout.decode()
            except subprocess.TimeoutExpired:
                r = "KILLED timeout"
            open(os.path.join(d, p), "w").write(src)
            with lock:
                o.write(json.dumps({"i": i, "file": p, "fn": name, "index": index, "pred": pred, "out": r.strip()[-300:], "hit": open(d + "/hit").read() if os.path.exists(d + "/hit") else None}) + "\n")
                o.flush()
        shutil.rmtree(d, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(w,)) for w in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()

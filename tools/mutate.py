"""Development aid: mutates a scratch copy of /repo one change at a time; prints what survives the tests and the checks.
usage: mutate.py OUT.jsonl [SAMPLE] [SEED]"""
import ast
import collections
import copy
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import threading

REPO = "/repo"
FAST = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fast.py")
PROPS = ["C%02d" % i for i in range(1, 28) if i != 26]
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Mod: ast.Mult, ast.FloorDiv: ast.Mult, ast.Div: ast.Mult}


def sites(tree):
    """(description, function mutating a copy's node at the same index)"""
    out = []
    nodes = list(ast.walk(tree))
    docs = set()
    for n in nodes:
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            docs.add(id(n.body[0]))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare):
            for j, o in enumerate(n.ops):
                if type(o) in CMP:
                    out.append((i, "cmp", j))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((i, "bin", 0))
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            out.append((i, "bin", 0))
        elif isinstance(n, ast.BoolOp):
            out.append((i, "bool", 0))
            for j in range(len(n.values)):
                out.append((i, "drop", j))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((i, "not", 0))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            out += [(i, "const", 1), (i, "const", -1)]
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((i, "flip", 0))
        elif isinstance(n, (ast.If, ast.IfExp)):
            out += [(i, "true", 0), (i, "false", 0)]
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                out.append((i, "swap", 0))
            for j in range(len(n.keywords)):
                pass
        elif isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.ctx, ast.Load):
            out.append((i, "swapt", 0))
        elif isinstance(n, ast.Attribute) and n.attr in ("MSB", "LSB"):
            out.append((i, "attr", 0))
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break)) and id(s) not in docs:
                        out.append((i, "del " + f, j))
    return out


def mutate(src, site):
    tree = ast.parse(src)
    i, kind, j = site
    n = list(ast.walk(tree))[i]
    line = getattr(n, "lineno", 0)
    if kind == "cmp":
        n.ops[j] = CMP[type(n.ops[j])]()
    elif kind == "bin":
        n.op = BIN[type(n.op)]()
    elif kind == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "drop":
        del n.values[j]
        if len(n.values) == 1:
            n.values.append(copy.deepcopy(n.values[0]))
    elif kind == "not":
        n.op = ast.UAdd()
        new = ast.Call(func=ast.Name(id="bool", ctx=ast.Load()), args=[n.operand], keywords=[])
        n.operand = new
    elif kind == "const":
        n.value += j
    elif kind == "flip":
        n.value = not n.value
    elif kind in ("true", "false"):
        n.test = ast.Constant(value=kind == "true")
    elif kind == "swap":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "swapt":
        n.elts.reverse()
    elif kind == "attr":
        n.attr = "LSB" if n.attr == "MSB" else "MSB"
    elif kind.startswith("del"):
        b = getattr(n, kind.split()[1])
        line = b[j].lineno
        b[j] = ast.Pass()
    return ast.unparse(ast.fix_missing_locations(tree)), line


def files():
    for d, _, fs in os.walk(REPO + "/knx_stack"):
        if "/tests" in d or "__pycache__" in d:
            continue
        for f in sorted(fs):
            if f.endswith(".py"):
                yield os.path.relpath(os.path.join(d, f), REPO)


_copy = None


def job(a):
    global _copy
    path, site, order, src = a
    if _copy is None:
        _copy = "/tmp/mut/%d" % os.getpid()
        shutil.copytree(REPO, _copy, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    try:
        new, line = mutate(src, site)
    except Exception as e:
        return path, site, 0, "SKIP %r" % e
    if ast.dump(ast.parse(new)) == ast.dump(ast.parse(src)):
        return path, site, line, "SKIP same"
    p = os.path.join(_copy, path)
    with open(p, "w") as f:
        f.write(new)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONHASHSEED="0")
    try:
        try:
            t = subprocess.run(["timeout", "60", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "--doctest-modules",
                                "--doctest-glob=*.rst", "knx_stack", "docs/source/intro.rst"], cwd=_copy, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if b"75 passed" not in t.stdout:
                return path, site, line, "TESTS"
            r = subprocess.run(["timeout", "600", "python3-vt", "-B", FAST, "12", "3"] + order, env=dict(env, VERIF_REPO=_copy), stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return path, site, line, (r.stdout.decode("utf8", "replace").strip().splitlines() or ["NOTHING"])[-1]
        except Exception as e:
            return path, site, line, "ERR %r" % e
    finally:
        with open(p, "w") as f:
            f.write(src)


def main():
    out = sys.argv[1]
    sample = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    only = sys.argv[4] if len(sys.argv) > 4 else ""
    os.makedirs("/tmp/mut", exist_ok=True)
    jobs = []
    for path in files():
        if only and only not in path:
            continue
        with open(os.path.join(REPO, path)) as f:
            src = f.read()
        src_main = src.split('if __name__ == "__main__":')[0]
        n_main = src_main.count("\n") + 1
        for s in sites(ast.parse(src)):
            nodes = list(ast.walk(ast.parse(src)))
            if getattr(nodes[s[0]], "lineno", 0) >= n_main and len(src_main) < len(src):
                continue
            jobs.append((path, s, src))
    rnd.shuffle(jobs)
    if sample:
        jobs = jobs[:sample]
    print(len(jobs), "mutants")
    kills = collections.defaultdict(collections.Counter)
    total = collections.Counter()

    room = threading.Semaphore(10)

    def feed():
        for path, s, src in jobs:
            room.acquire()
            k = kills[path]
            yield path, s, sorted(PROPS, key=lambda p: (-k[p], -total[p])), src

    with multiprocessing.Pool(7, maxtasksperchild=None) as pool, open(out, "w") as f:
        for path, site, line, res in pool.imap_unordered(job, feed(), chunksize=1):
            room.release()
            if res.startswith("KILLED C"):
                kills[path][res[7:10]] += 1
                total[res[7:10]] += 1
            f.write(json.dumps([path, line, site[1], site[2], res]) + "\n")
            f.flush()


main()

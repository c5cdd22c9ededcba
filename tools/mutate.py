"""Mutation campaign (development aid): mutants that pass the suite, to try the checks on.

mutate.py gen OUT.jsonl [SEED] [N]         sample mutants of /repo
mutate.py test IN OUT WORKERS              keep those which pass the fast part of the suite
mutate.py kill IN OUT                      run the checks of the properties against each
Every copy it works on lies under /tmp/w/mt.
"""

import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

SRC = "/repo/src/psygnal"
FILES = [
    "_dataclass_utils.py", "_evented_decorator.py", "_evented_model.py", "_exceptions.py",
    "_group.py", "_group_descriptor.py", "_queue.py", "_signal.py", "_throttler.py",
    "_weak_callback.py", "qt.py", "utils.py", "containers/_evented_dict.py",
    "containers/_evented_list.py", "containers/_evented_proxy.py",
    "containers/_evented_set.py", "containers/_selectable_evented_list.py",
    "containers/_selection.py",
]
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
       ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}


def mutants(f):
    text = open(f"{SRC}/{f}").read()
    lines = text.splitlines(keepends=True)
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x.encode()))
    raw = text.encode()

    def pos(n):
        return (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)

    def src(n):
        a, b = pos(n)
        return raw[a:b].decode()

    out = []

    def rep(n, new, kind):
        a, b = pos(n)
        out.append((f, a, b, new, kind, n.lineno))

    tree = ast.parse(text)

    def visit(n, infn):
        fn = infn or isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))
        if isinstance(n, ast.If) and "TYPE_CHECKING" in src(n.test):
            return
        if infn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                rep(n, f"{src(n.left)} {CMP[type(n.ops[0])]} {src(n.comparators[0])}", "cmp")
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                rep(n.test, f"(not ({src(n.test)}))", "neg")
                rep(n.test, "True", "true")
                rep(n.test, "False", "false")
            if isinstance(n, ast.BoolOp):
                op = " or " if isinstance(n.op, ast.And) else " and "
                rep(n, "(" + op.join(f"({src(v)})" for v in n.values) + ")", "bool")
                for v in n.values:
                    rest = " and " if isinstance(n.op, ast.And) else " or "
                    rep(n, "(" + rest.join(f"({src(x)})" for x in n.values if x is not v) + ")",
                        "drop-operand")
            if isinstance(n, ast.Constant) and not isinstance(n.value, str):
                if n.value is True or n.value is False:
                    rep(n, str(not n.value), "const")
                elif isinstance(n.value, int):
                    rep(n, str(n.value + 1), "const")
                elif n.value is None:
                    pass
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                rep(n, "pass", "drop-call")
            if isinstance(n, ast.Assign) and any(
                    isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
                rep(n, "pass", "drop-assign")
            if isinstance(n, (ast.AugAssign, ast.Delete)):
                rep(n, "pass", "drop-aug")
            if isinstance(n, (ast.Raise, ast.Continue, ast.Break)):
                rep(n, "pass", "drop-flow")
            if isinstance(n, ast.Return) and n.value is None:
                rep(n, "pass", "drop-flow")
            if isinstance(n, ast.Return) and n.value is not None and not isinstance(
                    n.value, ast.Constant):
                rep(n, f"{src(n)} and None" if False else "return None", "ret-none")
            if isinstance(n, ast.With) and len(n.items) == 1 and n.items[0].optional_vars is None:
                a = starts[n.lineno - 1] + n.col_offset
                b = pos(n.items[0].context_expr)[1]
                out.append((f, a, b, "if True", "drop-with", n.lineno))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
                    "list", "tuple", "dict", "set") and len(n.args) == 1 and not n.keywords:
                rep(n, src(n.args[0]), "no-copy")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (
                    n.func.attr == "copy" and not n.args):
                rep(n, src(n.func.value), "no-copy")
            if isinstance(n, ast.Call) and n.keywords:
                for k in n.keywords:
                    if k.arg:
                        a, b = pos(k)
                        s = raw[b:b + 1]
                        out.append((f, a, b + (s == b","), "", "drop-kw", n.lineno))
            if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(
                    isinstance(x, ast.Starred) for x in n.args[:2]) and not (
                    isinstance(n.func, ast.Name) and n.func.id in
                    ("isinstance", "getattr", "cast", "hasattr", "setattr", "issubclass")):
                a, b = pos(n.args[0])[0], pos(n.args[1])[1]
                mid = raw[pos(n.args[0])[1]:pos(n.args[1])[0]].decode()
                out.append((f, a, b, src(n.args[1]) + mid + src(n.args[0]), "swap-args", n.lineno))
            if isinstance(n, ast.Try) and n.finalbody:
                # what is in "finally" only happens after success
                for s in n.finalbody:
                    rep(s, "pass", "drop-finally")
            if isinstance(n, ast.Try):
                for h in n.handlers:
                    if h.type is not None:
                        rep(h.type, "ZeroDivisionError", "no-except")
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
                op = " - " if isinstance(n.op, ast.Add) else " + "
                rep(n, src(n.left) + op + src(n.right), "arith")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                rep(n, f"({src(n.operand)})", "unnot")
            if isinstance(n, ast.Slice):
                for part in (n.lower, n.upper):
                    if part is not None:
                        rep(part, "", "slice")
        for c in ast.iter_child_nodes(n):
            if infn is False and isinstance(n, (ast.FunctionDef,)) and c in n.decorator_list:
                continue
            visit(c, fn)

    visit(tree, False)
    good, seen = [], set()
    for m in out:
        new = (raw[:m[1]] + m[3].encode() + raw[m[2]:]).decode()
        if (m[1], m[2], m[3]) in seen:
            continue
        seen.add((m[1], m[2], m[3]))
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        good.append(m)
    return good


def gen(out, seed="0", n="400"):
    rng = random.Random(int(seed))
    ms = [m for f in FILES for m in mutants(f)]
    print(len(ms), "mutants in all")
    rng.shuffle(ms)
    with open(out, "w") as o:
        for i, m in enumerate(ms[: int(n)]):
            o.write(json.dumps({"id": i, "f": m[0], "a": m[1], "b": m[2], "new": m[3],
                                "kind": m[4], "line": m[5]}) + "\n")


def apply(m, tree):
    p = f"{tree}/src/psygnal/{m['f']}"
    raw = open(f"{SRC}/{m['f']}", "rb").read()
    open(p, "wb").write(raw[: m["a"]] + m["new"].encode() + raw[m["b"]:])


def restore(m, tree):
    shutil.copyfile(f"{SRC}/{m['f']}", f"{tree}/src/psygnal/{m['f']}")


def clone(d):
    if not os.path.exists(d):
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    subprocess.run(["git", "-C", d, "fetch", "-q", "/repo", "HEAD"], check=True)
    subprocess.run(["git", "-C", d, "reset", "-q", "--hard", "FETCH_HEAD"], check=True)


def test(inp, out, workers="6"):
    ms = [json.loads(x) for x in open(inp)]
    done = set()
    if os.path.exists(out):
        done = {json.loads(x)["id"] for x in open(out)}
    ms = [m for m in ms if m["id"] not in done]
    trees = [f"/tmp/w/mt/t{i}" for i in range(int(workers))]
    for t in trees:
        clone(t)
    free = list(trees)
    o = open(out, "a")

    def one(m):
        t = free.pop()
        try:
            apply(m, t)
            env = {"PATH": "/opt/venv/bin:/usr/bin:/bin", "HOME": "/root", "PYTHONPATH": f"{t}/src",
                   "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "CI": "",
                   "QT_QPA_PLATFORM": "offscreen", "LANG": "C.UTF-8"}
            try:
                r = subprocess.run(
                    ["timeout", "-k", "5", "120", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x",
                     "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=30", "tests",
                     "--ignore=tests/test_pyinstaller_hook.py", "--ignore=tests/test_bench.py"],
                    cwd=t, env=env, capture_output=True, text=True)
                m["rc"] = r.returncode
            finally:
                restore(m, t)
        finally:
            free.append(t)
        o.write(json.dumps(m) + "\n")
        o.flush()

    with ThreadPoolExecutor(len(trees)) as ex:
        list(ex.map(one, ms))


def kill(inp, out, scale="0.3", props=None):
    sys.path.insert(0, "/verif")
    done = set()
    if os.path.exists(out):
        done = {json.loads(x)["id"] for x in open(out)}
    ms = [m for m in map(json.loads, open(inp)) if m["rc"] == 0 and m["id"] not in done]
    t = "/tmp/w/mt/kill"
    clone(t)
    first = {
        "_evented_model.py": "21 10 29 9 20",
        "_group.py": "17 18 19 29 6 7 3 8 9",
        "_group_descriptor.py": "20 18 21 29 28 10",
        "_queue.py": "11 12 13 9",
        "_signal.py": "1 3 4 2 6 7 5 8 10 17 11 29 9 21 20 18 28",
        "_throttler.py": "14 15 16 9",
        "_weak_callback.py": "8 5 1 29 3 4 17 11",
        "qt.py": "13",
        "utils.py": "28",
        "containers/_evented_dict.py": "23 29 9",
        "containers/_evented_list.py": "22 26 25 29 9",
        "containers/_evented_proxy.py": "27 9",
        "containers/_evented_set.py": "24 25 29 9",
        "containers/_selection.py": "25 29 9",
        "containers/_selectable_evented_list.py": "25 29 9",
        "_dataclass_utils.py": "20 21",
        "_evented_decorator.py": "20 18",
        "_exceptions.py": "4",
    }
    o = open(out, "a")
    for m in ms:
        apply(m, t)
        ps = [f"C{int(x):02d}" for x in first[m["f"]].split()]
        m["killed"] = []
        env = dict(os.environ, VERIF_REPO=t, VERIF_REPLAYS="/tmp/w/mt/rp",
                   VERIF_EVIDENCE="/tmp/w/mt/ev")
        for p in ps:
            r = subprocess.run(
                ["/opt/venv/bin/python", "-m", "dst", "check", p, "--scale", scale,
                 "--min-budget", "0", "--workers", "4", "--selfcheck", "0"],
                cwd="/verif", env=env, capture_output=True, text=True)
            if r.returncode:
                lines = [x for x in r.stdout.splitlines() if "KNOWN" not in x]
                m["killed"].append([p, r.returncode, (lines or [""])[-1][:200]])
                if r.returncode == 1:
                    break
        restore(m, t)
        o.write(json.dumps(m) + "\n")
        o.flush()


if __name__ == "__main__":
    globals()[sys.argv[1]](*sys.argv[2:])

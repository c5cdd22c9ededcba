"""Plant a bug: verify it in a scratch copy and store it in /verif/seeded/<id>/.

usage: seed.py SPEC.py...   each spec defines ID, PROP, EDITS [(file, old, new)], DEMO,
NEEDS, BREAKS.  Options: --notest (skip the suite), --nocheck, --props C01,C02
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))


def stable():
    b = BASE
    for k in ("stable", "passing", "tests", "pass"):
        if isinstance(b, dict) and k in b:
            b = b[k]
    return set(b)


def demo(d, tree):
    return subprocess.run(
        ["bash", f"{d}/demo.sh"], cwd=tree, capture_output=True, text=True, timeout=300
    )


def main(path, opts):
    g = {}
    exec(compile(open(path).read(), path, "exec"), g)
    sid = g["ID"]
    d = f"/verif/seeded/{sid}"
    tmp = tempfile.mkdtemp(prefix=f"seed-{sid}-")
    a = f"{tmp}/a"
    subprocess.run(["git", "clone", "-q", "/repo", a], check=True)
    os.makedirs(d, exist_ok=True)
    open(f"{d}/demo.sh", "w").write(
        "#!/bin/bash\nhere=$(cd \"$(dirname \"$0\")\" && pwd)\n"
        "export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=\"$PWD/src\" QT_QPA_PLATFORM=offscreen\n"
        "exec timeout 120 /opt/venv/bin/python \"$here/demo.py\"\n")
    open(f"{d}/demo.py", "w").write(g["DEMO"].lstrip("\n"))
    try:
        r = demo(d, a)
        if r.returncode:
            print(sid, "DEMO FAILS ON CLEAN TREE", r.stdout[-300:], r.stderr[-600:])
            return 1
        for f, old, new in g["EDITS"]:
            p = f"{a}/src/psygnal/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(sid, "EDIT MATCHES", s.count(old), repr(old))
                return 1
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", a, "diff"], capture_output=True, text=True).stdout
        # removed lines must be lines of the original repository
        orig = set()
        for f, _, _ in g["EDITS"]:
            orig |= set(subprocess.run(
                ["git", "-C", a, "show", f"723a72f:src/psygnal/{f}"],
                capture_output=True, text=True).stdout.splitlines())
        notorig = [l for l in diff.splitlines()
                   if l.startswith("-") and not l.startswith("---") and l[1:] not in orig]
        removed = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        if notorig or not removed:
            print(sid, "LINES NOT ORIGINAL:", notorig or "nothing removed")
        open(f"{d}/patch.diff", "w").write(diff)
        r = demo(d, a)
        print(sid, "demo with bug:", r.returncode, (r.stderr or r.stdout).strip().splitlines()[-1:])
        if r.returncode == 0:
            return 1
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]},
                  open(f"{d}/meta.json", "w"), indent=1)
        if "--notest" not in opts:
            env = {**os.environ, "PYTHONPATH": f"{a}/src", "PYTHONDONTWRITEBYTECODE": "1",
                   "PYTHONHASHSEED": "0", "QT_QPA_PLATFORM": "offscreen", "CI": "1",
                   "PATH": "/opt/venv/bin:" + os.environ["PATH"]}
            r = subprocess.run(
                [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
                 "--mypy-only-local-stub", f"--basetemp={tmp}/pt", "tests",
                 "--deselect", "tests/test_bench.py",
                 "--ignore", "tests/test_bench.py", "-x", "--maxfail=6"],
                cwd=a, env=env, capture_output=True, text=True)
            print(sid, "tests:", r.stdout.strip().splitlines()[-1])
            for l in r.stdout.splitlines():
                if l.startswith(("FAILED", "ERROR")):
                    print("   ", l)
        if "--nocheck" not in opts:
            props = [g["PROP"]]
            for o in opts:
                if o.startswith("--props="):
                    props = o[8:].split(",")
            for pr in props:
                r = subprocess.run(
                    [PY, "-m", "dst", "check", pr], cwd="/verif", capture_output=True, text=True,
                    env={**os.environ, "VERIF_REPO": a, "VERIF_REPLAYS": f"{tmp}/rp",
                         "VERIF_EVIDENCE": f"{tmp}/ev", "VERIF_SEED": "1", "VERIF_TIER": "quick"})
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                print(sid, "check", pr, r.returncode, v[:1] or r.stdout.strip().splitlines()[-1:],
                      r.stderr.strip().splitlines()[-1:] if r.returncode not in (0, 1) else "")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0


if __name__ == "__main__":
    opts = [a for a in sys.argv[1:] if a.startswith("--")]
    for p in sys.argv[1:]:
        if not p.startswith("--"):
            main(p, opts)

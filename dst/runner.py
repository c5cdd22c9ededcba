"""Command line: check / replay / bench, worker processes, evidence."""

from __future__ import annotations

import argparse
import faulthandler
import gc
import json
import mmap
import os
import pickle
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import traceback

from . import boot, registry

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_LIMIT_S = 20.0  # CPU time one run may take before it counts as hanging


def _now() -> float:
    from . import core

    return core._real["monotonic"]()


class _Hang(BaseException):
    pass


def _guarded(sc, plan, cfg, choices=None):
    """execute() with a hang guard for scenarios whose code runs uninstrumented."""
    from . import base, core

    limit = sc.run_limit or RUN_LIMIT_S
    cpu0 = core._real["process_time"]()
    ticks = 0

    def on_alarm(signum, frame):
        # one tick per second the process could run: neither a suspended machine nor a
        # busy one makes a run look hung
        nonlocal ticks
        ticks += 1
        used = core._real["process_time"]() - cpu0
        if not (used >= limit or ticks >= 5 * limit):
            return
        s = core.CUR
        if s is not None and s.aborted is None:
            s.aborted = "hang: a run did not end"
            s.violations.append(("no-progress", "no progress: operation never returns"))
        raise core.SimAbort

    old = signal.signal(signal.SIGALRM, on_alarm)
    if not sc.threaded:
        signal.setitimer(signal.ITIMER_REAL, 1.0, 1.0)
    try:
        return base.execute(sc, plan, cfg, choices)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _worker(w, n, jobs, prop, seed, tier, out, mm, cap_s, selfcheck):
    """Run the cases of every (scenario, count) job whose index is w modulo n."""
    from . import base

    cpus = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, {cpus[w % len(cpus)]})  # a baton hand-off stays on one core
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    faulthandler.register(signal.SIGUSR1, all_threads=True)
    t0 = _now()
    agg = {
        "runs": 0,
        "trivial": 0,
        "sim_s": 0.0,
        "steps": 0,
        "preempt": 0,
        "faults": {},
        "stats": {},
        "scheds": set(),
        "states": set(),
        "viol": [],
        "samples": [],
        "capped": False,
        "nondet": [],
        "per": {},
        "longest": {},
    }
    try:
        for j, (sc, count) in enumerate(jobs):
            done = 0
            for i in range(w, count, n):
                if _now() - t0 > cap_s * (j + 1) / len(jobs):
                    agg["capped"] = True
                    break
                mm[w * 16 : w * 16 + 16] = struct.pack("dq", _now(), i)
                plan, cfg = base.case(sc, prop, seed, i, tier)
                r = _guarded(sc, plan, cfg)
                done += 1
                agg["runs"] += 1
                agg["trivial"] += r.trivial
                agg["sim_s"] += r.now
                agg["steps"] += r.steps
                agg["longest"][sc.name] = max(agg["longest"].get(sc.name, 0), r.steps)
                agg["preempt"] += r.preempt
                for k, v in r.faults.items():
                    agg["faults"][k] = agg["faults"].get(k, 0) + v
                for k, v in r.stats.items():
                    agg["stats"][k] = agg["stats"].get(k, 0) + v
                if not r.trivial:
                    agg["scheds"].add(hash((j, r.sched, r.state)))
                    agg["states"].add(hash(r.state))
                if i < n and i < 3:
                    agg["samples"].append(
                        {
                            "scenario": sc.name,
                            "index": i,
                            "plan": plan,
                            "schedule": {str(k): v for k, v in r.choices.items()},
                            "steps": r.steps,
                            "sim_s": r.now,
                        }
                    )
                if selfcheck and (i // n) % selfcheck == 0:
                    r2 = _guarded(sc, plan, cfg)
                    r3 = _guarded(sc, plan, cfg, dict(r.choices))
                    if r2.digest != r.digest or r3.digest != r.digest:
                        agg["nondet"].append((sc.name, i))
                if r.viol is not None:
                    agg["viol"].append((j, i, r.viol, w, n))
                    break
            agg["per"][sc.name] = agg["per"].get(sc.name, 0) + done
            if agg["viol"]:
                break
        res = ("ok", agg)
    except BaseException:
        res = ("error", traceback.format_exc())
    with open(out, "wb") as f:
        pickle.dump(res, f)
    os._exit(0)


def _fork(fn, *a) -> int:
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            fn(*a)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(3)
    return pid


def _wait(pids: dict[int, int], mm, stuck_s: float, total_s: float) -> str | None:
    t = _now()
    total = 0.0
    seen: dict[int, list] = {}
    err = None
    while pids:
        try:
            pid, st = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid:
            w = pids.pop(pid, None)
            if w is not None and st != 0:
                err = err or f"worker {w} died with status {st}"
            continue
        from . import core

        core._real["sleep"](0.02)
        # (a suspended machine is no reason to give up)
        dt, t = min(_now() - t, 0.5), _now()
        total += dt
        for p, w in list(pids.items()):
            last, i = struct.unpack("dq", mm[w * 16 : w * 16 + 16])
            rec = seen.setdefault(p, [last, 0.0])
            if rec[0] != last:
                rec[:] = last, 0.0
            rec[1] += dt
            if rec[1] > stuck_s or total > total_s:
                os.kill(p, signal.SIGUSR1)  # where is it?
                core._real["sleep"](0.5)
                os.kill(p, signal.SIGKILL)
                err = f"worker {w} stuck in run {i}"
    return err


def _load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {"findings": [], "fixed": []}
    with open(p) as f:
        return json.load(f)


def _choices(d) -> dict[int, list]:
    return {int(k): v for k, v in (d or {}).items()}


def _minimise_child(sc, job, out, prop, seed, tier, budget):
    from . import base

    _j, i, viol, _w, _n = job
    plan, cfg = base.case(sc, prop, seed, i, tier)
    try:
        p, c, ch, v = base.minimise(sc, plan, cfg, viol[0], budget)
        res = ("ok", (p, c, ch, v))
    except BaseException:
        res = ("error", traceback.format_exc())
    with open(out, "wb") as f:
        pickle.dump(res, f)
    os._exit(0)


def _write_replay(prop, seed, sc, i, plan, cfg, choices, viol, extra) -> str:
    d = os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "replays"))
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{sc.name}-s{seed}-{i}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "scenario": sc.name,
                "seed": seed,
                "index": i,
                "violation": {"kind": viol[0], "what": viol[1]},
                "plan": plan,
                "cfg": cfg,
                "schedule": None
                if choices is None
                else {str(k): v for k, v in sorted(choices.items())},
                **extra,
            },
            f,
            indent=1,
        )
    return path


def _replay_ok(path: str) -> bool:
    env = {k: v for k, v in os.environ.items() if k != "DST_CHILD"}
    try:
        p = subprocess.run(
            [sys.executable, "-m", "dst", "replay", path],
            cwd=VERIF,
            env=env,
            capture_output=True,
            text=True,
            timeout=180,
        )
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 1 and "VIOLATION" in p.stdout


def check(prop: str, tier: str, seed: int, args) -> int:
    from . import core

    jobs_spec = registry.jobs(prop)
    boot.setup(registry.deps(prop))
    jobs = []
    for cls, quick, thorough in jobs_spec:
        sc = cls()
        count = quick if tier == "quick" else thorough
        count = int(count * args.scale)
        jobs.append((sc, count))
    t0 = _now()
    n = args.workers or min(8, os.cpu_count() or 1)
    cap = args.cap or (90.0 if tier == "quick" else 780.0)
    tmp = tempfile.mkdtemp(prefix="dst-")
    rc = 0
    try:
        # known findings first: each is re-executed from its recorded history
        known = [
            k for k in _load_known().get("findings", []) if k["property"] == prop
        ]
        known_hit = 0
        for k in known:
            sc = next(s for s, _ in jobs if s.name == k["scenario"])
            r = _guarded(sc, k["plan"], k["cfg"], _choices(k.get("schedule")))
            if r.viol is not None and r.viol[0] == k["kind"]:
                known_hit += 1
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
            elif r.viol is not None:
                path = _write_replay(
                    prop, seed, sc, 0, k["plan"], k["cfg"],
                    _choices(k.get("schedule")), r.viol, {},
                )
                print(f"VIOLATION property={prop} replay={path}")
                print(f"  {r.viol[0]}: {r.viol[1]}")
                rc = 1
        # fixed findings: regression plans are replayed on every run
        mm = mmap.mmap(-1, 16 * n)
        for w in range(n):
            mm[w * 16 : w * 16 + 16] = struct.pack("dq", _now(), -1)
        pids = {}
        outs = []
        for w in range(n):
            out = os.path.join(tmp, f"w{w}")
            outs.append(out)
            pid = _fork(
                _worker, w, n, jobs, prop, seed, tier, out, mm, cap, args.selfcheck
            )
            pids[pid] = w
        err = _wait(pids, mm, 60.0, cap + 120.0)
        aggs = []
        for o in outs:
            try:
                with open(o, "rb") as f:
                    st, a = pickle.load(f)
            except (OSError, EOFError):
                err = err or "worker left no result"
                continue
            if st != "ok":
                err = err or a
                continue
            aggs.append(a)
        viols = sorted((v for a in aggs for v in a["viol"]), key=lambda v: (v[0], v[1]))
        tot = _merge(aggs)
        if tot["nondet"]:
            err = err or f"nondeterministic runs: {tot['nondet'][:5]}"
        if err and not viols:
            print(f"HARNESS-ERROR property={prop}: {err}", file=sys.stderr)
            return 2
        if viols:
            rc = 1
            job = viols[0]
            sc = jobs[job[0]][0]
            path = _report(prop, seed, tier, sc, job, tmp, args)
            print(f"VIOLATION property={prop} replay={path}")
            with open(path) as f:
                rp = json.load(f)
            print(f"  {rp['violation']['kind']}: {rp['violation']['what']}")
        wall = _now() - t0
        _evidence(prop, tier, seed, jobs, tot, wall, len(viols), known_hit, n)
        if rc == 0:
            print(
                f"OK property={prop} tier={tier} seed={seed} runs={tot['runs']} "
                f"distinct={len(tot['scheds'])} wall={wall:.1f}s"
            )
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        del core


def _report(prop, seed, tier, sc, job, tmp, args) -> str:
    """Minimise, write and verify the replay file of a violation."""
    from . import base

    _j, i, viol, w, n = job
    out = os.path.join(tmp, "min")
    budget = args.min_budget
    pid = _fork(_minimise_child, sc, job, out, prop, seed, tier, budget)
    mm = mmap.mmap(-1, 16)
    mm[0:16] = struct.pack("dq", _now(), i)
    _wait({pid: 0}, mm, budget * 4 + 60, budget * 4 + 60)
    if os.path.exists(out):
        with open(out, "rb") as f:
            st, res = pickle.load(f)
        if st == "ok":
            p, c, ch, v = res
            path = _write_replay(prop, seed, sc, i, p, c, ch, v, {"minimised": True})
            if _replay_ok(path):
                return path
        elif args.verbose:
            print(res, file=sys.stderr)
    plan, cfg = base.case(sc, prop, seed, i, tier)
    path = _write_replay(
        prop, seed, sc, i, plan, cfg, None, viol, {"minimised": False}
    )
    if _replay_ok(path):
        return path
    # depends on what ran earlier in the process: replay the worker's whole sequence
    return _write_replay(
        prop, seed, sc, i, plan, cfg, None, viol,
        {"minimised": False, "sequence": {"worker": w, "workers": n, "tier": tier}},
    )


def _merge(aggs) -> dict:
    tot = {
        "runs": 0, "trivial": 0, "sim_s": 0.0, "steps": 0, "preempt": 0,
        "faults": {}, "stats": {}, "scheds": set(), "states": set(),
        "samples": [], "capped": False, "nondet": [], "per": {},
        "longest": {},
    }
    for a in aggs:
        for k in ("runs", "trivial", "sim_s", "steps", "preempt"):
            tot[k] += a[k]
        for k in ("faults", "stats", "per"):
            for kk, v in a[k].items():
                tot[k][kk] = tot[k].get(kk, 0) + v
        for k, v in a["longest"].items():
            tot["longest"][k] = max(tot["longest"].get(k, 0), v)
        tot["scheds"] |= a["scheds"]
        tot["states"] |= a["states"]
        tot["samples"] += a["samples"]
        tot["capped"] |= a["capped"]
        tot["nondet"] += a["nondet"]
    return tot


def _evidence(prop, tier, seed, jobs, tot, wall, nviol, known, workers) -> None:
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    info = registry.info(prop)
    per_h = 3600.0 * tot["runs"] / max(wall, 1e-9)
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(tot["scheds"]),
        "rule": info["rule"],
        "samples": sorted(tot["samples"], key=lambda s: (s["scenario"], s["index"]))[:4],
        "runs_per_scenario": tot["per"],
        "simulated_runs_per_hour": round(per_h),
        "seeds_per_hour": round(per_h),
        "simulated_seconds": round(tot["sim_s"], 3),
        "scheduling_points": tot["steps"],
        "longest_run_steps": tot["longest"],
        "preemptions": tot["preempt"],
        "faults_injected": dict(sorted(tot["faults"].items())),
        "workload_counts": dict(sorted(tot["stats"].items())),
        "distinct_histories": len(tot["states"]),
        "distinct_measure": "distinct_nontrivial counts distinct (context-switch "
        "sequence, observed history) pairs of non-trivial runs; distinct_histories "
        "counts observed histories alone",
        "trivial_runs": tot["trivial"],
        "real_components": info["real"],
        "stubbed_components": info["stub"],
        "time_cap_reached": tot["capped"],
        "workers": workers,
        "known_findings_reproduced": known,
    }
    with open(os.path.join(d, f"{prop}.json"), "w") as f:
        json.dump(
            {
                "property": prop,
                "tier": tier,
                "seed": seed,
                "level": "exploration",
                "coverage": cov,
                "assumptions": info["assumptions"],
                "wall_s": round(wall, 3),
                "violations": nviol,
            },
            f,
            indent=1,
        )


def replay(path: str, args) -> int:
    from . import base

    with open(path) as f:
        rp = json.load(f)
    prop = rp["property"]
    specs = registry.jobs(prop)
    boot.setup(registry.deps(prop))
    scs = [cls() for cls, _, _ in specs]
    sc = next(s for s in scs if s.name == rp["scenario"])
    seq = rp.get("sequence")
    if seq:
        for s, spec in zip(scs, specs):
            count = spec[1] if seq["tier"] == "quick" else spec[2]
            stop = rp["index"] if s.name == sc.name else count
            for i in range(seq["worker"], stop, seq["workers"]):
                plan, cfg = base.case(s, prop, rp["seed"], i, seq["tier"])
                _guarded(s, plan, cfg)
            if s.name == sc.name:
                break
    ch = rp["schedule"]
    r = _guarded(sc, rp["plan"], rp["cfg"], None if ch is None else _choices(ch))
    if args.verbose:
        print(json.dumps(rp["plan"], indent=1))
        print("schedule:", rp["schedule"])
    if r.viol is None:
        print(f"NOT-REPRODUCED property={prop}")
        return 0
    print(f"VIOLATION property={prop} replay={os.path.abspath(path)}")
    print(f"  {r.viol[0]}: {r.viol[1]}  (history {r.digest}, {r.steps} steps)")
    return 1


def selftest() -> int:
    """Set-up command: everything imports, a few runs of a check are repeatable."""
    boot.setup()
    for p in registry.CHECKS:
        for make, _, _ in registry.jobs(p):
            if not registry.deps(p):
                make()
    print("ok")
    return 0


def main() -> int:
    ap = argparse.ArgumentParser(prog="dst")
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    c.add_argument("--workers", type=int, default=0)
    c.add_argument("--scale", type=float, default=1.0)
    c.add_argument("--cap", type=float, default=0.0)
    c.add_argument("--min-budget", type=float, default=25.0)
    c.add_argument("--selfcheck", type=int, default=97,
                   help="repeat every n-th run twice and compare digests; 0 = never")
    c.add_argument("-v", "--verbose", action="store_true")
    r = sub.add_parser("replay")
    r.add_argument("path")
    r.add_argument("-v", "--verbose", action="store_true")
    sub.add_parser("selftest")
    args = ap.parse_args()
    if args.cmd == "selftest":
        return selftest()
    if args.cmd == "check":
        tier = args.tier if args.tier in ("quick", "thorough") else "quick"
        return check(args.prop, tier, args.seed, args)
    return replay(args.path, args)


_ = gc

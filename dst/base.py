"""Scenario base class, execution of one run, schedule generation, minimisation."""

from __future__ import annotations

import copy
import gc
import hashlib
import json
import random
import sys
import threading
import traceback
import warnings

from . import core
from .core import G_CALL, G_LINE, G_RET, HarnessError, Sim, SimAbort


def mix(*parts) -> int:
    """A 63-bit seed from any printable parts (stable across processes)."""
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1


class Scenario:
    """One workload generator with its oracle.

    ``gen`` returns a JSON-able plan (workload and faults); ``run`` executes it against
    the real code inside the simulation and reports violations with ``sim.fail``.
    """

    name = ""
    threaded = True  # instrument psygnal lines (preemption points)
    uses_gc: bool | str = False  # True: plans may have ["gc"] operations; or "always"
    max_steps = 200_000
    run_limit = None  # wall seconds after which a run counts as hanging
    stall_durs = (0.0005, 0.003, 0.02)
    stall_rate = 0.0  # probability that a run uses stalls
    horizon = 300

    def gen(self, rng: random.Random, tier: str) -> dict:
        raise NotImplementedError

    def run(self, sim: Sim, plan: dict) -> None:
        raise NotImplementedError

    def nontrivial(self, sim: Sim, plan: dict) -> bool:
        return True

    def state(self, sim: Sim, plan: dict):
        """What identifies the state/history a run reached (for coverage counting)."""
        return sim.log_

    # schedules ---------------------------------------------------------
    def gen_cfg(self, rng: random.Random, plan: dict) -> dict:
        cfg = {"seed": rng.randrange(1 << 48), "max_steps": self.max_steps}
        if not self.threaded:
            cfg["strategy"] = "none"
            cfg["gran"] = 0
            return cfg
        cfg["gran"] = rng.choice(
            [G_LINE, G_LINE, G_LINE | G_CALL, G_LINE | G_CALL | G_RET, 0]
        )
        st = rng.choice(["uniform", "uniform", "pct", "pct", "rr"])
        cfg["strategy"] = st
        if st == "uniform":
            cfg["p"] = rng.choice([0.01, 0.03, 0.1, 0.3])
        elif st == "rr":
            cfg["k"] = rng.choice([1, 2, 3, 5, 8, 13])
        else:
            cfg["depth"] = rng.choice([1, 2, 3, 4, 6])
            cfg["horizon"] = rng.choice(
                [self.horizon // 4, self.horizon, self.horizon * 3]
            )
        if self.stall_rate and rng.random() < self.stall_rate:
            cfg["stall_p"] = rng.choice([0.05, 0.2, 0.5])
            cfg["stall_durs"] = list(self.stall_durs)
        return cfg

    # shrinking -----------------------------------------------------------
    shrink_keys = ("ops", "threads", "slots", "faults", "body", "objs", "signals")

    def shrink(self, plan: dict):
        """Yield smaller plans: each with a slice of some op list removed."""
        paths = []

        def walk(node, path, key):
            if isinstance(node, dict):
                for k, v in node.items():
                    walk(v, [*path, k], k)
            elif isinstance(node, list):
                if key in self.shrink_keys:
                    paths.append((path, len(node)))
                for i, v in enumerate(node):
                    walk(v, [*path, i], None)

        walk(plan, [], None)
        for path, n in paths:
            size = max(1, n // 2)
            while n and size >= 1:
                for i in range(0, n, size):
                    p = copy.deepcopy(plan)
                    node = p
                    for k in path[:-1]:
                        node = node[k]
                    lst = node[path[-1]]
                    node[path[-1]] = lst[:i] + lst[i + size :]
                    yield p
                if size == 1:
                    break
                size //= 2


class Result:
    __slots__ = (
        "cfg",
        "choices",
        "digest",
        "faults",
        "now",
        "plan",
        "preempt",
        "sched",
        "state",
        "stats",
        "steps",
        "trivial",
        "viol",
    )


def _psygnal_in_tb(e: BaseException) -> bool:
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        if last.startswith(core.TRACED_PREFIX):
            return True
        tb = tb.tb_next
    return False


_QUIET = None


def _forget_threads() -> None:
    """Drop the queues psygnal keeps for the threads of the run (only to save memory)."""
    cls = getattr(sys.modules.get("psygnal._queue"), "QueuedCallback", None)
    queues = getattr(cls, "_GLOBAL_QUEUE", None)
    if isinstance(queues, dict):
        for t in [t for t in queues if t is not threading.main_thread()]:
            queues.pop(t, None)


def execute(
    sc: Scenario, plan: dict, cfg: dict, choices: dict[int, list] | None = None
) -> Result:
    """Run one plan under one schedule."""
    collects = sc.uses_gc == "always" or (sc.uses_gc and '["gc' in json.dumps(plan))
    if collects or gc.get_count()[0] > 20000:
        gc.collect()  # a run that collects must not find garbage of earlier ones
    core.monitoring(sc.threaded)
    sim = Sim(cfg, choices)
    plan = copy.deepcopy(plan)
    unraisable: list[str] = []
    old_unraisable = sys.unraisablehook
    sys.unraisablehook = lambda u: unraisable.append(
        f"{u.exc_type.__name__ if u.exc_type else '?'}: {u.exc_value}"
    )
    sim.unraisable = unraisable
    caught = warnings.catch_warnings()
    caught.__enter__()
    warnings.simplefilter("ignore")
    rs = random.getstate()
    random.seed(cfg.get("seed", 0))
    core.CUR = sim
    try:
        try:
            sc.run(sim, plan)
        except SimAbort:
            pass
        except HarnessError:
            raise
        except Exception as e:
            if _psygnal_in_tb(e):
                sim.fail(
                    f"unexpected-{type(e).__name__}",
                    "".join(traceback.format_exception_only(e)).strip()[-300:]
                    + " @ "
                    + " < ".join(
                        f"{f.filename.rsplit('/', 1)[-1]}:{f.name}"
                        for f in traceback.extract_tb(e.__traceback__)[-3:][::-1]
                    ),
                )
            else:
                raise
        sim.shutdown()
    finally:
        core.CUR = None
        _forget_threads()
        sys.unraisablehook = old_unraisable
        caught.__exit__(None, None, None)
        random.setstate(rs)
    r = Result()
    r.plan = plan
    r.cfg = cfg
    r.choices = dict(sim.recorded)
    r.viol = sim.violations[0] if sim.violations else None
    r.digest = sim.digest()
    r.sched = sim.sched_digest()
    r.faults = sim.faults
    r.stats = sim.stats
    r.now = sim.now - 1000.0
    r.steps = sim.step
    r.preempt = sim.preemptions
    r.trivial = not sc.nontrivial(sim, plan)
    r.state = hashlib.sha256(repr(sc.state(sim, plan)).encode()).digest()[:8]
    return r


def case(sc: Scenario, prop: str, seed: int, i: int, tier: str) -> tuple[dict, dict]:
    """The i-th (plan, cfg) of a check."""
    rng = random.Random(mix(seed, prop, sc.name, i))
    plan = sc.gen(rng, tier)
    plan = json.loads(json.dumps(plan))
    cfg = sc.gen_cfg(rng, plan)
    return plan, cfg


def minimise(
    sc: Scenario, plan: dict, cfg: dict, kind: str, budget_s: float = 25.0
) -> tuple[dict, dict, dict[int, list], tuple[str, str]]:
    """Smaller plan and schedule with the same kind of violation (delta debugging)."""
    t0 = core._real["monotonic"]()

    def left() -> bool:
        return core._real["monotonic"]() - t0 < budget_s

    def same(r: Result) -> bool:
        return r.viol is not None and r.viol[0] == kind

    best = execute(sc, plan, cfg)
    if not same(best):
        raise HarnessError(f"violation {kind} did not repeat in-process")
    # 1. shrink the plan, re-searching a schedule for each candidate
    tries = 1 if not sc.threaded else 12
    changed = True
    while changed and left():
        changed = False
        for cand in sc.shrink(best.plan):
            if not left():
                break
            found = None
            for t in range(tries):
                if t == 0:
                    r = try_execute(sc, cand, best.cfg, best.choices)
                elif t == 1:
                    r = try_execute(sc, cand, best.cfg, None)
                else:
                    rng = random.Random(mix("min", best.cfg.get("seed"), t))
                    r = try_execute(sc, cand, sc.gen_cfg(rng, cand), None)
                if r is not None and same(r):
                    found = r
                    break
                if not left():
                    break
            if found is not None:
                best = found
                changed = True
                break
    # 2. replay explicitly and drop schedule decisions
    choices = dict(best.choices)
    r = execute(sc, best.plan, best.cfg, choices)
    if not same(r):
        raise HarnessError("explicit schedule does not reproduce the violation")
    best = r
    if not sc.threaded:
        return best.plan, best.cfg, {}, best.viol
    keys = sorted(choices)
    size = max(1, len(keys) // 2)
    while keys and left():
        removed = False
        for i in range(0, len(keys), size):
            trial = keys[:i] + keys[i + size :]
            r = try_execute(sc, best.plan, best.cfg, {k: choices[k] for k in trial})
            if r is not None and same(r):
                choices = {k: choices[k] for k in trial}
                keys = trial
                best = r
                removed = True
                break
            if not left():
                break
        if not removed:
            if size == 1:
                break
            size = max(1, size // 2)
    # keep only the decisions that took effect
    eff = dict(best.choices)
    r = try_execute(sc, best.plan, best.cfg, eff)
    if r is not None and same(r):
        choices, best = eff, r
    return best.plan, best.cfg, choices, best.viol


def try_execute(sc, plan, cfg, choices):
    """execute() for shrunk plans, which may not be meaningful any more."""
    try:
        return execute(sc, plan, cfg, choices)
    except (HarnessError, LookupError, TypeError, ValueError, AttributeError):
        return None

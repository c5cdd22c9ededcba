"""The simulator: baton-passing threads, simulated locks and clock, seeded scheduler.

Importing this module patches ``threading``, ``queue`` and ``time`` (the seams psygnal
already has).  Outside of a running simulation every patched primitive falls back to its
ordinary behaviour, so library code imported before or used around a run is unaffected.

Exactly one thread (the *current actor*) runs at any time; it gives the baton away only
at a *point*.  Points are: every line / call / return executed in psygnal's own
source files (``sys.monitoring``), every lock, timer, sleep, join, thread-start operation
and every explicit ``sim.point()`` in harness callbacks.  Which actor runs after a point,
which actor is stalled, and by how long, is decided by the run's decision source: a seeded
random strategy (search) or an explicit sparse map (replay).
"""

from __future__ import annotations

import _thread
import hashlib
import os
import queue as _queue_mod
import random
import sys
import threading
import time as _time_mod

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
TRACED_PREFIX = os.path.join(SRC, "psygnal") + os.sep
TRACED_FILES = {_queue_mod.__file__}

_real_allocate = _thread.allocate_lock
_real_start_new_thread = _thread.start_new_thread
get_ident = _thread.get_ident
_real_thread_start = threading.Thread.start
_real_thread_join = threading.Thread.join
_real_thread_is_alive = threading.Thread.is_alive
real_monotonic = _time_mod.monotonic
_real = {
    n: getattr(_time_mod, n)
    for n in (
        "monotonic",
        "time",
        "perf_counter",
        "process_time",
        "sleep",
        "monotonic_ns",
        "time_ns",
        "perf_counter_ns",
    )
}

CUR: "Sim | None" = None  # the running simulation


class SimAbort(BaseException):
    """Unwinds every actor of a run that has been given up (deadlock, step cap)."""


class HarnessError(Exception):
    """The machinery itself failed; never reported as a violation."""


READY, BLOCKED, DONE = 0, 1, 2


class Actor:
    __slots__ = (
        "baton",
        "cond",
        "deadline",
        "ident",
        "name",
        "prio",
        "sim",
        "stall_until",
        "state",
        "thread",
        "tid",
    )

    def __init__(self, tid: int, name: str, thread: threading.Thread | None) -> None:
        self.tid = tid
        self.name = name
        self.thread = thread
        self.state = READY
        self.cond = None
        self.deadline: float | None = None
        self.stall_until = 0.0
        self.prio = 0.0
        self.sim = None
        self.ident = 0
        self.baton = _real_allocate()
        self.baton.acquire()


# granularity masks
G_LINE, G_CALL, G_RET = 1, 2, 4
INF = float("inf")
WALL0 = 1_600_000_000.0


class Sim:
    """One simulated execution."""

    def __init__(self, cfg: dict, choices: dict[int, list] | None = None) -> None:
        self.cfg = cfg
        self.replay = choices
        self.now = 1000.0
        self.wall_skew = 0.0
        self.stall_total = 0.0  # by how much stalls may have delayed anything
        self.step = 0
        self.rng = random.Random(cfg.get("seed", 0))
        self.gran = cfg.get("gran", 0)
        self.max_steps = cfg.get("max_steps", 400_000)
        self.actors: list[Actor] = []
        self.by_ident: dict[int, Actor] = {}
        self.aborted: str | None = None
        self.violations: list[tuple[str, str]] = []
        self.log_: list[tuple] = []
        self.recorded: dict[int, list] = {}
        self.faults: dict[str, int] = {}
        self.uncaught: list[tuple[str, str, str]] = []
        self.switches = 0
        self.preemptions = 0
        self.stats: dict[str, int] = {}
        self.hashes = hashlib.sha256()
        self.in_sched = False
        self.quiet = False  # set-up and final checks: no preemption, no steps counted
        self.fail_starts: set[int] = set()  # indices of thread starts that fail
        self.n_starts = 0
        self.multi = False  # more than one live actor
        main = Actor(0, "main", threading.main_thread())
        main.ident = get_ident()
        self.actors.append(main)
        main.sim = self
        self.by_ident[main.ident] = main
        self.cur = main
        self._init_strategy()
        if self.replay is None:
            main.prio = self.rng.random()

    # ------------------------------------------------------------ strategy
    def _init_strategy(self) -> None:
        cfg = self.cfg
        self.strategy = cfg.get("strategy", "none")
        self.stall_p = cfg.get("stall_p", 0.0)
        self.stall_durs = cfg.get("stall_durs", [0.001])
        self.pct_live = False
        if self.replay is not None:
            self._replay_steps = sorted(self.replay)
            self._ri = 0
            self.next_event = self._replay_steps[0] if self._replay_steps else INF
            return
        self.next_event = INF
        if self.strategy == "pct":
            n = cfg.get("horizon", 300)
            self._changes = sorted(
                self.rng.randrange(1, n) for _ in range(cfg.get("depth", 3))
            )
            self._prio_next = -1.0
        self.pct_live = self.strategy == "pct"
        self._arm()

    def _arm(self) -> None:
        """Set next_event (first step at which something may happen)."""
        if self.replay is not None:
            i = self._ri
            s = self._replay_steps
            while i < len(s) and s[i] <= self.step:
                i += 1
            self._ri = i
            self.next_event = s[i] if i < len(s) else INF
            return
        st = self.strategy
        nxt = INF
        if st == "uniform":
            p = self.cfg["p"]
            r = self.rng.random()
            # geometric gap
            gap = 1
            q = 1.0 - p
            if p < 1.0:
                import math

                gap = 1 + int(math.log(max(r, 1e-12)) / math.log(q)) if q < 1 else 1
            nxt = self.step + max(1, gap)
        elif st == "rr":
            nxt = self.step + self.cfg.get("k", 3)
        elif st == "pct":
            while self._changes and self._changes[0] <= self.step:
                self._changes.pop(0)
            nxt = self._changes[0] if self._changes else INF
        self.next_event = nxt

    # ------------------------------------------------------------ points
    def point(self, kind: str = "y") -> None:
        """A place where the current actor may lose the baton."""
        if self.in_sched or self.quiet:
            return
        a = self.by_ident.get(get_ident())
        if a is None or a is not self.cur:
            return
        if self.aborted:
            raise SimAbort
        self.step += 1
        if self.step >= self.next_event or (self.pct_live and kind in ("ul", "st")):
            self._point_slow(a)
        elif self.step >= self.max_steps:
            self._abort("no-progress: step limit reached")

    def _point_slow(self, a: Actor) -> None:
        if self.step >= self.max_steps:
            self._abort("no-progress: step limit reached")
        step = self.step
        self.in_sched = True
        try:
            if self.replay is not None:
                ch = self.replay.get(step)
                self._arm()
                if ch is None:
                    return
                if ch[0] == "s":
                    self._stall(a, ch[1])
                    target = None
                else:
                    target = self._runnable_tid(ch[1])
                    if target is None or target is a:
                        return
                    self.recorded[step] = ["t", target.tid]
            else:
                target = self._decide_preempt(a)
                self._arm()
                if target is None:
                    if a.stall_until <= self.now:
                        return
                else:
                    self.recorded[step] = ["t", target.tid]
                    self.preemptions += 1
        finally:
            self.in_sched = False
        if target is not None:
            self._handoff(a, target)
        elif a.stall_until > self.now:
            self._reschedule(a)

    def _stall(self, a: Actor, dur: float) -> None:
        a.stall_until = self.now + dur
        self.recorded[self.step] = ["s", dur]
        self.stall_total += dur
        self.faults["stall"] = self.faults.get("stall", 0) + 1

    def _decide_preempt(self, a: Actor) -> Actor | None:
        rng = self.rng
        if self.stall_p and rng.random() < self.stall_p and self.multi:
            self._stall(a, rng.choice(self.stall_durs))
            return None
        others = [x for x in self.actors if x is not a and self._can_run(x)]
        if not others:
            return None
        if self.strategy == "pct":
            if self.step >= self.next_event:
                a.prio = self._prio_next
                self._prio_next -= 1.0
            best = max(others, key=lambda x: x.prio)
            return best if best.prio > a.prio else None
        if self.strategy == "rr":
            for x in others:
                if x.tid > a.tid:
                    return x
            return others[0]
        return others[rng.randrange(len(others))]

    def _can_run(self, x: Actor) -> bool:
        if x.state == DONE or x.stall_until > self.now:
            return False
        if x.state == READY:
            return True
        if x.cond is not None and x.cond():
            return True
        return x.deadline is not None and x.deadline <= self.now

    def _runnable_tid(self, tid: int) -> Actor | None:
        if 0 <= tid < len(self.actors) and self._can_run(self.actors[tid]):
            return self.actors[tid]
        return None

    # ------------------------------------------------------------ switching
    def _handoff(self, a: Actor, b: Actor) -> None:
        if a is b:
            return
        self.switches += 1
        self.hashes.update(b"%d:%d;" % (self.step, b.tid))
        self.cur = b
        b.baton.release()
        a.baton.acquire()
        if self.aborted:
            raise SimAbort

    def _pick_blocked(self, a: Actor) -> Actor | None:
        """Choose who runs when `a` cannot; advances the clock if nobody can."""
        while True:
            run = [x for x in self.actors if self._can_run(x)]
            if run:
                break
            t = INF
            for x in self.actors:
                if x.state == DONE:
                    continue
                if x.stall_until > self.now:
                    t = min(t, x.stall_until)
                elif x.state == BLOCKED and x.deadline is not None:
                    t = min(t, x.deadline)
            if t == INF:
                return None
            self.now = max(self.now, t)
        # default: next in cyclic order, so that a replay without an entry is total
        default = next((x for x in run if x.tid > a.tid), run[0])
        if len(run) == 1:
            return run[0]
        if self.replay is not None:
            ch = self.replay.get(self.step)
            if ch is not None and ch[0] == "t":
                t_ = self._runnable_tid(ch[1])
                if t_ is not None:
                    if t_ is not default:
                        self.recorded[self.step] = ["t", t_.tid]
                    return t_
            return default
        if self.strategy == "pct":
            pick = max(run, key=lambda x: x.prio)
        elif self.strategy in ("none", "rr"):
            pick = default
        else:
            pick = run[self.rng.randrange(len(run))]
        if pick is not default:
            self.recorded[self.step] = ["t", pick.tid]
        return pick

    def _reschedule(self, a: Actor) -> None:
        """Give the baton away because `a` cannot continue now."""
        self.step += 1
        if self.step >= self.max_steps:
            self._abort("no-progress: step limit reached")
        self.in_sched = True
        try:
            b = self._pick_blocked(a)
            if self.step >= self.next_event:
                self._arm()
        finally:
            self.in_sched = False
        if b is None:
            waiting = ", ".join(
                x.name for x in self.actors if x.state == BLOCKED and x is not None
            )
            self._abort(f"deadlock: {waiting} wait for each other")
        if b is not a:
            self._handoff(a, b)

    def block(self, cond, deadline: float | None = None) -> bool:
        """Block the current actor until cond() or the deadline; True if cond()."""
        a = self.by_ident.get(get_ident())
        if a is None or a is not self.cur:
            raise HarnessError("blocking operation outside of the current actor")
        if self.aborted:
            raise SimAbort
        a.state = BLOCKED
        a.cond = cond
        a.deadline = deadline
        try:
            while True:
                self._reschedule(a)
                if cond is not None and cond():
                    return True
                if deadline is not None and deadline <= self.now:
                    return False
        finally:
            a.state = READY
            a.cond = None
            a.deadline = None

    def _abort(self, why: str) -> None:
        if self.aborted is None:
            self.aborted = why
            self.violations.append((why.split(":")[0], why))
        raise SimAbort

    # ------------------------------------------------------------ threads
    def new_actor(self, thread: threading.Thread, name: str) -> Actor:
        a = Actor(len(self.actors), name, thread)
        a.prio = self.rng.random() if self.replay is None else 0.0
        self.actors.append(a)
        a.sim = self
        thread._dst_actor = a
        self.multi = True
        return a

    def _boot(self, a: Actor) -> None:
        a.ident = get_ident()
        a.baton.acquire()
        th = a.thread
        self.by_ident[a.ident] = a
        try:
            if self.aborted:
                return
            try:
                th._ident = a.ident
                if hasattr(th, "_set_native_id"):
                    th._set_native_id()
                threading._active[a.ident] = th
                th._started.set()
                th.run()
            except SimAbort:
                pass
            except BaseException as e:
                self.uncaught.append((a.name, type(e).__name__, repr(e)[:200]))
                e = None
        finally:
            threading._active.pop(a.ident, None)
            self._finish(a)

    def _finish(self, a: Actor) -> None:
        """`a` ends: pass the baton on for good."""
        a.state = DONE
        a.thread = None
        self.by_ident.pop(a.ident, None)
        if self.aborted:
            self._pass_aborted()
            return
        self.step += 1
        self.in_sched = True
        try:
            b = self._pick_blocked(a)
            if self.step >= self.next_event:
                self._arm()
        finally:
            self.in_sched = False
        if b is None:
            self.aborted = "deadlock: all remaining threads wait for each other"
            self.violations.append(("deadlock", self.aborted))
            self._pass_aborted()
            return
        self.switches += 1
        self.hashes.update(b"%d:%d;" % (self.step, b.tid))
        self.cur = b
        b.baton.release()

    def _pass_aborted(self) -> None:
        for x in reversed(self.actors):
            if x.state != DONE:
                self.cur = x
                x.baton.release()
                return

    def spawn(self, fn, name: str) -> threading.Thread:
        """Start a new actor running fn()."""
        th = threading.Thread(target=fn, name=name, daemon=True)
        th.start()
        return th

    def sleep(self, dt: float) -> None:
        self.point()
        if dt <= 0:
            return
        self.block(None, self.now + dt)

    def sleep_until(self, t: float) -> None:
        if t > self.now:
            self.block(None, t)

    def join_all(self) -> None:
        """Main actor: wait until every other actor is done."""
        self.block(lambda: all(x.state == DONE for x in self.actors if x.tid))

    def shutdown(self) -> None:
        """Called by main outside of normal control flow: unwind what is left."""
        main = self.actors[0]
        for x in self.actors:
            if x is not main and x.state != DONE:
                if self.aborted is None:
                    self.aborted = "shutdown"
                # each woken actor raises SimAbort, finishes, and passes the baton on to
                # the next unfinished actor; the last one passes it back to main
                self.cur = x
                break
        live = [x for x in self.actors if x is not main and x.state != DONE]
        if live:
            x = live[-1]
            self.cur = x
            x.baton.release()
            main.baton.acquire()
            self.cur = main

    # ------------------------------------------------------------ results
    def fail(self, kind: str, msg: str) -> None:
        """Record a property violation."""
        self.violations.append((kind, msg))

    def me(self) -> int:
        a = self.by_ident.get(get_ident())
        return -1 if a is None else a.tid

    def log(self, *items) -> None:
        self.log_.append((self.me(), *items))

    def fault(self, kind: str, n: int = 1) -> None:
        self.faults[kind] = self.faults.get(kind, 0) + n

    def stat(self, kind: str, n: int = 1) -> None:
        self.stats[kind] = self.stats.get(kind, 0) + n

    def digest(self) -> str:
        h = self.hashes.copy()
        h.update(repr(self.log_).encode())
        h.update(repr([v[0] for v in self.violations]).encode())
        return h.hexdigest()[:16]

    def sched_digest(self) -> str:
        return self.hashes.hexdigest()[:16]


def _actor_sim() -> "Sim | None":
    s = CUR
    if s is None:
        return None
    a = s.by_ident.get(get_ident())
    if a is None or a is not s.cur:
        return None
    return s


# ---------------------------------------------------------------- locks
class SimLock:
    """threading.Lock replacement."""

    __slots__ = ("__weakref__", "_locked", "_owner")

    def __init__(self) -> None:
        self._locked = False
        self._owner = None
        s = _actor_sim()
        if s is not None and not s.aborted:
            s.point("mk")

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        s = _actor_sim()
        if s is None:
            if self._locked:
                if not blocking or timeout >= 0:
                    return False
                raise HarnessError("lock contended outside of a simulation")
            self._locked = True
            return True
        if s.aborted:
            self._locked = True
            return True
        s.point("lk")
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        deadline = s.now + timeout if timeout is not None and timeout >= 0 else None
        s.stat("lock_waits")
        if s.block(lambda: not self._locked, deadline):
            self._locked = True
            return True
        return False

    def release(self) -> None:
        s = _actor_sim()
        if not self._locked:
            if s is not None and s.aborted:
                return
            raise RuntimeError("release unlocked lock")
        self._locked = False
        if s is not None and not s.aborted:
            s.point("ul")

    def locked(self) -> bool:
        return self._locked

    def __enter__(self) -> bool:
        return self.acquire()

    def __exit__(self, *a) -> None:
        self.release()

    def _at_fork_reinit(self) -> None:
        self._locked = False

    acquire_lock = acquire
    release_lock = release


class SimRLock:
    """threading.RLock replacement."""

    __slots__ = ("__weakref__", "_count", "_owner")

    def __init__(self) -> None:
        self._owner: int | None = None
        self._count = 0
        s = _actor_sim()
        if s is not None and not s.aborted:
            s.point("mk")

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        me = get_ident()
        s = _actor_sim()
        if s is None:
            if self._owner is not None and self._owner != me:
                if not blocking or timeout >= 0:
                    return False
                raise HarnessError("lock contended outside of a simulation")
            self._owner = me
            self._count += 1
            return True
        if s.aborted:
            self._owner = me
            self._count += 1
            return True
        s.point("lk")
        if self._owner == me:
            self._count += 1
            return True
        if self._owner is not None:
            if not blocking:
                return False
            deadline = s.now + timeout if timeout is not None and timeout >= 0 else None
            s.stat("lock_waits")
            if not s.block(lambda: self._owner is None, deadline):
                return False
        self._owner = me
        self._count = 1
        return True

    def release(self) -> None:
        s = _actor_sim()
        if self._owner != get_ident():
            if s is not None and s.aborted:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count <= 0:
            self._owner = None
            self._count = 0
        if s is not None and not s.aborted and self._owner is None:
            s.point("ul")

    def __enter__(self) -> bool:
        return self.acquire()

    def __exit__(self, *a) -> None:
        self.release()

    def _is_owned(self) -> bool:
        return self._owner == get_ident()

    def _release_save(self):
        c = self._count
        self._count = 0
        self._owner = None
        s = _actor_sim()
        if s is not None and not s.aborted:
            s.point("ul")
        return c

    def _acquire_restore(self, c) -> None:
        self.acquire()
        self._count = c

    def _recursion_count(self) -> int:
        return self._count if self._owner == get_ident() else 0

    def _at_fork_reinit(self) -> None:
        self._owner = None
        self._count = 0


# ---------------------------------------------------------------- threads
def _sim_start(self) -> None:
    s = _actor_sim()
    if s is None:
        return _real_thread_start(self)
    if s.aborted:
        raise SimAbort
    if not self._initialized:
        raise RuntimeError("thread.__init__() not called")
    if getattr(self, "_dst_actor", None) is not None:
        raise RuntimeError("threads can only be started once")
    s.point("ts")
    i = s.n_starts
    s.n_starts += 1
    if i in s.fail_starts:
        s.fault("thread-start-failure")
        raise RuntimeError("can't start new thread")
    a = s.new_actor(self, f"{self.name.split(' ')[0].split('-')[0]}#{len(s.actors)}")
    try:
        _real_start_new_thread(s._boot, (a,))
    except BaseException as e:
        raise HarnessError(f"cannot start an OS thread: {e}") from e
    s.point("st")


def _sim_is_alive(self) -> bool:
    s = CUR
    if s is None:
        a = getattr(self, "_dst_actor", None)
        return _real_thread_is_alive(self) if a is None else a.state != DONE
    if self is threading.main_thread():
        return True
    a = getattr(self, "_dst_actor", None)
    if a is None:
        return False
    if a.sim is s and _actor_sim() is not None:
        s.point("al")
    return a.state != DONE


def _sim_join(self, timeout: float | None = None) -> None:
    s = _actor_sim()
    if s is None:
        return _real_thread_join(self, timeout)
    a = getattr(self, "_dst_actor", None)
    if a is None:
        raise RuntimeError("cannot join thread before it is started")
    if a is s.cur:
        raise RuntimeError("cannot join current thread")
    if s.aborted:
        raise SimAbort
    s.point("jn")
    if a.state == DONE:
        return
    s.block(
        lambda: a.state == DONE,
        None if timeout is None else s.now + max(0.0, timeout),
    )


# ---------------------------------------------------------------- clock
def _monotonic() -> float:
    s = _actor_sim()
    return _real["monotonic"]() if s is None else s.now


def _perf_counter() -> float:
    s = _actor_sim()
    return _real["perf_counter"]() if s is None else s.now


def _time() -> float:
    s = _actor_sim()
    return _real["time"]() if s is None else WALL0 + s.now + s.wall_skew


def _ns(f):
    return lambda: int(f() * 1e9)


def _sleep(dt: float) -> None:
    s = _actor_sim()
    if s is None:
        return _real["sleep"](dt)
    s.sleep(dt)


_installed = False


def install() -> None:
    """Patch the seams.  Call before importing psygnal."""
    global _installed
    if _installed:
        return
    _installed = True
    if "psygnal" in sys.modules:
        raise HarnessError("psygnal imported before the simulator was installed")
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._time = _monotonic
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock
    threading.Thread.start = _sim_start
    threading.Thread.join = _sim_join
    threading.Thread.is_alive = _sim_is_alive
    _queue_mod.time = _monotonic
    _queue_mod.SimpleQueue = _queue_mod._PySimpleQueue
    _time_mod.monotonic = _monotonic
    _time_mod.perf_counter = _perf_counter
    _time_mod.time = _time
    _time_mod.sleep = _sleep
    _time_mod.monotonic_ns = _ns(_monotonic)
    _time_mod.perf_counter_ns = _ns(_perf_counter)
    _time_mod.time_ns = _ns(_time)
    _install_monitoring()


_DISABLE = sys.monitoring.DISABLE
_traced_cache: dict[str, bool] = {}


def _is_traced(fn: str) -> bool:
    r = _traced_cache.get(fn)
    if r is None:
        r = fn in TRACED_FILES or fn.startswith(TRACED_PREFIX)
        if fn.endswith("_exceptions.py") and fn.startswith(TRACED_PREFIX):
            r = False  # message formatting walks stacks: slow, and no shared state
        _traced_cache[fn] = r
    return r


def _on_line(code, line):
    if not _is_traced(code.co_filename):
        return _DISABLE
    s = CUR
    if s is not None and s.gran & G_LINE:
        s.point("L")
    return None


def _on_call(code, offset, callable_, arg0):
    if not _is_traced(code.co_filename):
        return _DISABLE
    s = CUR
    if s is not None and s.gran & G_CALL:
        s.point("C")
    return None


def _on_ret(code, offset, retval):
    if not _is_traced(code.co_filename):
        return _DISABLE
    s = CUR
    if s is not None and s.gran & G_RET:
        s.point("P")
    return None


def _install_monitoring() -> None:
    m = sys.monitoring
    tool = 4
    m.use_tool_id(tool, "dst")
    ev = m.events
    m.register_callback(tool, ev.LINE, _on_line)
    m.register_callback(tool, ev.CALL, _on_call)
    m.register_callback(tool, ev.PY_RETURN, _on_ret)


_mon_on = False


def monitoring(on: bool) -> None:
    """Instrument psygnal's code (process wide; cheap to leave on)."""
    global _mon_on
    if on == _mon_on:
        return
    _mon_on = on
    ev = sys.monitoring.events
    mask = (ev.LINE | ev.CALL | ev.PY_RETURN) if on else 0
    if on:
        sys.monitoring.restart_events()
    sys.monitoring.set_events(4, mask)

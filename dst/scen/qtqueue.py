"""C13: Qt timers that deliver queued callbacks, in the event loops of several threads.

``qtpy.QtCore`` is a stub: its timers run on the simulated clock, belong to the thread
that made them, fire in that thread's event loop only, and can be stopped, but not
started, by other threads (as observed with PyQt6).
"""

from __future__ import annotations

import enum
import importlib
import sys
import threading
import types
import weakref

from psygnal import EmitLoopError, SignalInstance, emit_queued

from ..base import Scenario, _psygnal_in_tb
from ..core import Sim, SimAbort
from ..lib import drop_tb, weighted

INF = float("inf")
WORLD: list = [None]


class Boom(Exception):
    pass


# ------------------------------------------------------------------ stub of Qt
class _Qt:
    class TimerType(enum.Enum):
        PreciseTimer = 0
        CoarseTimer = 1
        VeryCoarseTimer = 2


class _State:
    """What the event dispatcher of a thread knows about a timer."""

    def __init__(self, thread, n):
        self.thread = thread
        self.n = n
        self.interval = 0
        self.type = _Qt.TimerType.CoarseTimer
        self.active = False
        self.single = False
        self.due = INF
        self.busy = None  # a timer does not fire again while it is firing
        self.slots = []


class _Bound:
    def __init__(self, st):
        self._st = st

    def connect(self, slot, *_a):
        self._st.slots.append(slot)

    def disconnect(self, slot=None):
        if slot is None:
            self._st.slots.clear()
        else:
            self._st.slots.remove(slot)


class QTimer:
    def __init__(self, parent=None):
        w = WORLD[0]
        self._st = _State(threading.current_thread(), len(w.timers))
        w.timers.append(self._st)
        self.timeout = _Bound(self._st)

    def __del__(self):
        self._st.active = False  # the wrapper owns the timer
        self._st.slots = []

    def _arm(self):
        st = self._st
        if threading.current_thread() is not st.thread:
            st.active = False  # "Timers cannot be started from another thread"
            return
        w = WORLD[0]
        st.active = True
        st.busy = None  # (it is another one now, to the event loop)
        st.due = w.sim.now + w.period(st)

    def setTimerType(self, t):
        self._st.type = t

    def timerType(self):
        return self._st.type

    def setSingleShot(self, on):
        self._st.single = on

    def isSingleShot(self):
        return self._st.single

    def interval(self):
        return self._st.interval

    def setInterval(self, msec):
        self._st.interval = msec
        if self._st.active:
            self._arm()

    def isActive(self):
        return self._st.active

    def start(self, msec=None):
        if msec is not None:
            self._st.interval = msec
        self._arm()

    def stop(self):
        self._st.active = False

    def deleteLater(self):
        self._st.active = False
        self._st.slots = []

    def killTimer(self, *_a):
        self._st.active = False


def _install():
    core = types.ModuleType("qtpy.QtCore")
    core.Qt = _Qt
    core.QTimer = QTimer
    pkg = types.ModuleType("qtpy")
    pkg.QtCore = core
    pkg.__path__ = []
    pkg.API_NAME = "stub"
    sys.modules["qtpy"] = pkg
    sys.modules["qtpy.QtCore"] = core


_install()
TYPES = [_Qt.TimerType.PreciseTimer, _Qt.TimerType.CoarseTimer]


# ---------------------------------------------------------------------- world
class World:
    def __init__(self, sim: Sim, plan: dict) -> None:
        self.sim = sim
        self.plan = plan
        self.timers: list[_State] = []
        self.seq = 0
        self.threads: list = [threading.main_thread()]
        self.sigs = [SignalInstance((int,)) for _ in range(plan["signals"])]
        self.specs = plan["slots"]
        self.ncalls = [0] * len(self.specs)
        self.pending: list[dict] = []  # queued, not yet delivered
        self.done: list[dict] = []
        self.emitting: dict[int, list] = {}  # by thread: tokens under way
        self.ticking: dict[int, int] = {}
        self.ticks: dict[int, int] = {}
        self.fails: dict[int, int] = {}
        self.model: dict[int, dict] = {}  # by thread: msec, type, active
        self.version: dict[int, int] = {}  # changes to a thread's timer
        self.raised: list = []
        self.budget = 40
        self.depth = 0
        self.finished: set[int] = set()
        self.fns = [self.make(i) for i in range(len(self.specs))]
        for i, sp in enumerate(self.specs):
            sp["on"] = False

    def period(self, st) -> float:
        p = st.interval / 1000
        if st.type is not _Qt.TimerType.PreciseTimer:
            p *= 1 + 0.05 * self.plan["drift"]
        return p

    def tick_no(self) -> int:
        self.seq += 1
        return self.seq

    def me(self) -> int:
        t = threading.current_thread()
        for k, x in enumerate(self.threads):
            if x is t:
                return k
        return -1

    def make(self, i):
        def fn(tok):
            self.called(i, tok)

        return fn

    def connect_all(self):
        for i, sp in enumerate(self.specs):
            self.sigs[sp["sig"]].connect(
                self.fns[i], thread=self.threads[sp["target"]], priority=sp["prio"]
            )

    # -- callbacks --------------------------------------------------------------
    def called(self, i, tok):
        sim, me = self.sim, self.me()
        sp = self.specs[i]
        if me != sp["target"]:
            sim.fail("wrong-thread", f"slot {i} of thread {sp['target']} was called in {me}")
        direct = tok in self.emitting.get(me, ())
        if not direct:
            mine = [p for p in self.pending if p["i"] == i and p["tok"] == tok]
            if not mine:
                sim.fail("duplicate", f"slot {i} got {tok} again, or never emitted")
                return
            p = mine[0]
            self.pending.remove(p)
            self.done.append(p)
            for q in self.pending:
                if q["i"] == i and q["by"] == p["by"] and q["tok"] < tok:
                    sim.fail("order", f"slot {i} got {tok} of thread {p['by']} before "
                             f"{q['tok']}")
            if not self.ticking.get(me):
                sim.fail("no-tick", f"slot {i} was called outside of timer ticks")
        sim.log(i, tok, me)
        sim.point()
        n = self.ncalls[i]
        self.ncalls[i] += 1
        script = sp["script"]
        for a in script[n] if n < len(script) else ():
            if a[0] == "raise":
                if direct:
                    continue  # (others would not get it)
                e = Boom(f"{i}/{tok}")
                self.raised.append(e)
                self.fails[me] = self.fails.get(me, 0) + 1
                sim.fault("callback-raises")
                raise e
            if a[0] == "spin" and (self.emitting.get(me) or self.ticking.get(me, 0) > 2):
                continue  # (would hold locks, or never end)
            sim.stat("nested-" + a[0])
            self.op(a)

    # -- event loop -------------------------------------------------------------
    def spin(self, ms):
        """Run this thread's event loop for so many milliseconds."""
        sim, me = self.sim, self.me()
        thread = threading.current_thread()
        start = sim.now
        if (self.model.get(me) or {"msec": 10})["msec"] < 5:
            ms = min(ms, 250)  # (else it ticks for too long)
        end = start + ms / 1000
        before = [p for p in self.pending if self.specs[p["i"]]["target"] == me and p["sent"]]
        model = self.model.get(me)
        version, fails, ticks = (d.get(me, 0) for d in (self.version, self.fails, self.ticks))
        while True:
            ready = [t for t in self.timers
                     if t.thread is thread and t.active and t.slots and not t.busy]
            if ready and min(t.due for t in ready) <= sim.now:
                t = min(ready, key=lambda t: (t.due, t.n))
                if t.single:
                    t.active = False
                # (other events are processed between ticks)
                t.due = sim.now + max(self.period(t), 0.001)
                t.busy = turn = object()
                self.fire(t, me)
                if t.busy is turn:
                    t.busy = None
                if sim.now >= end:
                    break
                continue
            if sim.now >= end:
                break
            sim.sleep_until(min([end, *(t.due for t in ready)]))
        if version != self.version.get(me, 0) or model is None or not model["active"]:
            return
        if self.ticking.get(me):
            return
        # nothing has changed this thread's timer in the meantime
        n = self.ticks.get(me, 0) - ticks
        period = max(model["msec"], 1) / 1000
        most = (sim.now - start) / (period * 0.95) + 2
        if n > most:
            sim.fail("too-often", f"{n} ticks in {sim.now - start:.3f} s, with an interval of "
                     f"{model['msec']} ms")
        if ms / 1000 < period * 1.06 + 0.001:
            return
        if not n:
            sim.fail("no-ticks", f"no tick within {ms} ms, with an interval of "
                     f"{model['msec']} ms")
        if fails == self.fails.get(me, 0):
            for p in before:
                if p in self.pending:
                    sim.fail("not-delivered", f"thread {me} has not been given {p['tok']} within "
                             f"{ms} ms by a timer with an interval of {model['msec']} ms")

    def fire(self, t, me):
        sim = self.sim
        model = self.model.get(me)
        if model is None or not model["active"]:
            sim.fail("runs-after-stop", f"a tick in thread {me}, which has no timer started")
        active = [x for x in self.timers if x.thread is t.thread and x.active and x.slots]
        if len(active) > 1:
            sim.fail("more-timers", f"thread {me} has {len(active)} timers")
        elif model is not None and (t.interval, t.type) != (model["msec"], model["type"]):
            sim.fail("other-timer", f"thread {me} has a timer of {t.interval} ms, {t.type}, not "
                     f"{model['msec']} ms, {model['type']}")
        self.ticks[me] = self.ticks.get(me, 0) + 1
        self.ticking[me] = self.ticking.get(me, 0) + 1
        if self.ticking[me] > 1:
            sim.stat("nested-tick")
        try:
            for s in list(t.slots):
                s()
        except SimAbort:
            raise
        except EmitLoopError as e:
            c = e.__cause__
            while isinstance(c, EmitLoopError):
                c = c.__cause__
            if not any(c is x for x in self.raised):
                sim.fail("tick-failed", f"a tick ended with {c!r}, raised by no callback")
            drop_tb(e)
        except Exception as e:
            sim.fail("tick-failed", f"a tick ended with {e!r}")
        finally:
            self.ticking[me] -= 1

    # -- operations -------------------------------------------------------------
    def op(self, o):
        k, me, sim = o[0], self.me(), self.sim
        if k == "spin":
            self.spin(o[1])
        elif k == "sleep":
            sim.fault("event-loop-blocked")
            sim.sleep(o[1] / 1000)
        elif k == "emit":
            self.emit(o[1], me)
        elif k == "start":
            self.start(me, *o[1:])
        elif k == "stop":
            self.stop(me, me if o[1] else None)
        elif k == "start-foreign":
            # (see known_findings.json)
            self.qt.start_emitting_from_queue(o[1], thread=self.threads[o[2]])
            self.model[o[2]] = {"msec": o[1], "type": TYPES[0], "active": True}
            self.version[o[2]] = self.version.get(o[2], 0) + 1

    def start(self, me, msec, ttype, explicit, kw):
        start = self.qt.start_emitting_from_queue
        args = [] if msec is None else [msec]
        kws = {}
        if ttype is not None:
            kws["timer_type"] = TYPES[ttype]
        if explicit:
            kws["thread"] = threading.current_thread()
        if kw and args:
            kws["msec"] = args.pop()
        start(*args, **kws)
        self.version[me] = self.version.get(me, 0) + 1
        self.model[me] = {
            "msec": msec or 0, "type": TYPES[ttype or 0], "active": True,
        }

    def stop(self, me, target):
        stop = self.qt.stop_emitting_from_queue
        if target is None:
            stop()
            target = me
        else:
            if target != me:
                self.sim.fault("stopped-by-other-thread")
            stop(thread=self.threads[target])
        self.version[target] = self.version.get(target, 0) + 1
        if target in self.model:
            self.model[target]["active"] = False

    def emit(self, s, me):
        if self.budget <= 0:
            return
        self.budget -= 1
        tok = self.tick_no()
        mine = []
        for i, sp in enumerate(self.specs):
            if sp["sig"] == s and sp["target"] != me:
                p = {"i": i, "tok": tok, "by": me, "sent": False}
                mine.append(p)
                self.pending.append(p)
        self.emitting.setdefault(me, []).append(tok)
        try:
            self.sigs[s].emit(tok)
        finally:
            self.emitting[me].remove(tok)
            for p in mine:
                p["sent"] = True


class QtQueue(Scenario):
    """C13."""

    name = "qtqueue"
    max_steps = 1_000_000
    horizon = 800
    stall_rate = 0.2
    shrink_keys = ("ops", "script", "slots")

    def gen(self, rng, tier):
        nt = rng.choice([1, 2, 2, 3, 3])
        ns = rng.choice([1, 2, 3])
        slots = []
        for _ in range(rng.randint(1, 5)):
            s = rng.randrange(ns)
            sp = {"sig": s, "target": rng.randrange(nt), "prio": rng.choice([0, 0, 1]),
                  "script": []}
            if rng.random() < 0.5:
                sp["script"] = [self.acts(rng, ns, s) for _ in range(rng.randint(1, 3))]
            slots.append(sp)
        threads = [
            {"ops": [self.gen_op(rng, ns, nt) for _ in range(rng.randint(2, 9))]}
            for _ in range(nt)
        ]
        return {
            "signals": ns, "slots": slots, "threads": threads,
            "drift": rng.choice([-1, 0, 1]), "foreign": rng.random() < 0.4,
            "names": rng.choice([None, "worker", "MainThread"]),
            "final": [self.gen_start(rng)[1:] for _ in range(nt)],
            "ghost": rng.choice([None, None, 0, 5]),
        }

    def gen_start(self, rng):
        return ["start", rng.choice([None, 0, 1, 5, 20, 100, 1500]), rng.choice([None, None, 0, 1]),
                rng.random() < 0.3, rng.random() < 0.5]

    def gen_op(self, rng, ns, nt):
        k = weighted(rng, {"spin": 5, "emit": 6, "start": 3, "stop": 1.3, "sleep": 1})
        if k == "spin":
            return [k, rng.choice([1, 2, 7, 25, 110, 1700])]
        if k == "emit":
            return [k, rng.randrange(ns)]
        if k == "start":
            return self.gen_start(rng)
        if k == "stop":
            return [k, rng.random() < 0.3]
        return [k, rng.choice([1, 30, 150])]

    def acts(self, rng, ns, s):
        out = []
        for _ in range(rng.choice([1, 1, 2])):
            r = rng.random()
            if r < 0.25:
                out.append(["raise"])
                break
            if r < 0.5 and s + 1 < ns:
                out.append(["emit", rng.randrange(s + 1, ns)])
            elif r < 0.7:
                out.append(["spin", rng.choice([1, 7, 25])])
            elif r < 0.8:
                out.append(self.gen_start(rng))
            elif r < 0.9:
                out.append(["stop", rng.random() < 0.3])
            else:
                out.append(["sleep", rng.choice([1, 30])])
        return out

    def run(self, sim: Sim, plan: dict) -> None:
        sim.quiet = True
        emit_queued()
        w = World(sim, plan)
        WORLD[0] = w
        sys.modules.pop("psygnal.qt", None)
        w.qt = importlib.import_module("psygnal.qt")
        nt = len(plan["threads"])
        go = [False]
        left = [nt]
        turn = [0]
        if plan["ghost"] is not None:
            # a thread that has ended, with its timer running
            def ghost():
                w.qt.start_emitting_from_queue(plan["ghost"])

            sim.spawn(ghost, plan["names"] or "ghost")
            sim.join_all()
            sim.fault("thread-ended")

        def guarded(fn, *args):
            try:
                fn(*args)
            except SimAbort:
                raise
            except Exception as e:
                if not _psygnal_in_tb(e):
                    raise
                sim.fail("failed", f"{fn.__name__} failed with {type(e).__name__}")

        def body(k):
            def f():
                sim.block(lambda: go[0])
                for o in plan["threads"][k]["ops"]:
                    if not sim.violations:
                        guarded(w.op, o)
                left[0] -= 1
                sim.block(lambda: left[0] == 0)
                sim.quiet = True
                while True:
                    sim.block(lambda: turn[0] < 0 or turn[0] % nt == k)
                    if turn[0] < 0:
                        break
                    if not sim.violations:
                        guarded(self.settle, w, k, turn[0] < nt)
                    still = sim.violations or turn[0] >= nt and not w.pending
                    turn[0] = -1 if still else turn[0] + 1

            return f

        for k in range(1, nt):
            w.threads.append(sim.spawn(body(k), plan["names"] or f"t{k}"))
        w.connect_all()
        sim.quiet = False
        go[0] = True
        body(0)()
        sim.join_all()
        sim.quiet = True
        for u in sim.uncaught:
            sim.fail("thread-died", str(u))
        for e in w.raised:
            drop_tb(e)
        WORLD[0] = None

    def settle(self, w, k, first):
        """Once it has started, a thread gets everything."""
        final = w.plan["final"][k]
        if first and not w.model.get(k, {}).get("active"):
            w.spin(30)
        for _ in range(60):
            if w.sim.violations:
                return
            if not w.model.get(k, {}).get("active"):
                w.start(k, *final)
            w.spin(int(w.model[k]["msec"] * 1.06) + 3)
            if not [p for p in w.pending if w.specs[p["i"]]["target"] == k]:
                break
        else:
            w.sim.fail("not-delivered", f"thread {k} is not given what has been queued for it")
        if first and w.plan["foreign"] and k + 1 < len(w.threads):
            w.stop(k, k + 1)

    def nontrivial(self, sim, plan):
        return sim.preemptions > 0 or len(plan["threads"]) == 1

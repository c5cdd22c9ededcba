"""C14-C16: throttlers and debouncers against rules over the recorded history.

Time is simulated, so an interval passes only when every thread waits.  The rules are
stated over what a user observes (calls, invocations and their times).  An invocation
begins (is committed to) at some instant before the function is entered; since nothing
can be locked while user code runs, rules allow for that instant wherever two operations
overlap, and for the total time threads were stalled.
"""

from __future__ import annotations

from psygnal import SignalInstance, debounced, throttled

from ..base import Scenario
from ..core import Sim, SimAbort
from ..lib import drop_tb, weighted

INF = float("inf")
EPS = 1e-6


class Boom(Exception):
    pass


class BoomType(Boom, TypeError):
    """A failure of a kind that code might take for one of its own."""


class BoomRuntime(Boom, RuntimeError):
    pass


class BoomExit(Boom, StopIteration):
    pass


BOOMS = (Boom, BoomType, BoomRuntime, BoomExit)


class Dying:
    """An argument whose finalizer emits a signal."""

    def __init__(self, w) -> None:
        self.w = w

    def __del__(self):
        self.w.died()


class World:
    def __init__(self, sim: Sim, plan: dict) -> None:
        self.sim = sim
        self.plan = plan
        self.ivl = plan["interval"] / 1000
        self.seq = 0
        self.ncall = 0
        self.calls: list[dict] = []
        self.runs: list[dict] = []
        self.cancels: list[dict] = []
        self.flushes: list[dict] = []
        self.budget = 40
        self.raised = 0
        self.byk: dict[int, dict] = {}
        self.empty = plan.get("empty", 0)  # the call without arguments
        deco = debounced if plan["kind"] == "debounce" else throttled
        kw = {"timeout": plan["interval"]}
        if plan["lead"] is not None:
            kw["leading"] = plan["lead"]
        self.lead = plan["lead"]
        if self.lead is None:
            self.lead = plan["kind"] != "debounce"
        if plan.get("bare") and plan["lead"] is None and plan["interval"] == 100:
            self.f = deco(self.func)
        else:
            self.f = deco(**kw)(self.func)
        # a signal emitted by threads and by the finalizers of arguments; its callback uses
        # the throttled function
        self.death = SignalInstance((str,))
        self.death.connect(lambda k: self.op([k]))
        self.deaths = 0
        self.sig = None
        if plan.get("signal"):
            self.sig = SignalInstance((int,))
            self.sig.connect(self.f)

    def tick(self) -> tuple[int, float]:
        self.seq += 1
        return self.seq, self.sim.now

    # the throttled function -------------------------------------------------
    def died(self):
        self.deaths += 1
        acts = self.plan["dying"]
        if acts and self.deaths <= 20:
            self.sim.fault("argument-finalized")
            self.death.emit(acts[self.deaths % len(acts)])

    def func(self, k=None, *, key=None, x=None):
        if k is None:
            k = self.empty  # (there is one call without arguments)
        n = len(self.runs)
        s, t = self.tick()
        rec = {"k": k, "s": s, "t": t, "thr": self.sim.me(), "e": INF, "et": INF}
        self.runs.append(rec)
        if k not in self.byk:
            self.sim.fail("bad-args", f"invoked with {k!r}, never passed")
        elif self.sig is None and key != (-k if self.style(k) else None):
            self.sim.fail("mixed-args", f"invoked with ({k}, key={key})")
        self.sim.point()
        try:
            fx = self.plan["func"]
            for a in fx[n] if n < len(fx) else ():
                if a[0] == "raise":
                    self.raised += 1
                    self.sim.fault("function-raises")
                    raise BOOMS[a[1] if len(a) > 1 else 0]
                if a[0] == "z":
                    self.sim.fault("slow-function")
                self.op(a)
        finally:
            rec["e"], rec["et"] = self.tick()

    def style(self, k) -> int:
        """How call k passes its arguments: 0 without keywords, 2 with keywords only."""
        if k == self.empty:
            return 0
        styles = self.plan.get("styles")
        return styles[k % len(styles)] if styles else 1

    # operations ---------------------------------------------------------------
    def op(self, o) -> None:
        k = o[0]
        if k in ("call", "plain"):
            self.call(k == "call")
        elif k == "death":
            self.death.emit(o[1])
        elif k == "z":
            self.sim.sleep(o[1] / 1000)
        elif k in ("cancel", "flush"):
            s, t = self.tick()
            rec = {"s": s, "t": t, "e": INF, "et": INF, "thr": self.sim.me()}
            (self.cancels if k == "cancel" else self.flushes).append(rec)
            try:
                getattr(self.f, k)()
            except Boom as e:
                rec["exc"] = True
                drop_tb(e)
            finally:
                rec["e"], rec["et"] = self.tick()

    def call(self, dying=False) -> None:
        if self.budget <= 0:
            return
        self.budget -= 1
        self.ncall += 1
        k = self.ncall
        s, t = self.tick()
        rec = {"k": k, "s": s, "t": t, "e": INF, "et": INF, "thr": self.sim.me()}
        self.calls.append(rec)
        self.byk[k] = rec
        try:
            if self.sig is not None:
                try:
                    self.sig.emit(k)
                except SimAbort:
                    raise
                except Exception as e:
                    if not isinstance(e.__cause__, Boom):
                        raise
                    drop_tb(e)
            else:
                style = self.style(k)
                if k == self.empty:
                    self.f()
                elif dying and self.plan.get("dying"):
                    self.f(k, key=-k if style else None, x=Dying(self))
                elif style == 2:
                    self.f(k=k, key=-k)
                elif style:
                    self.f(k, key=-k)
                else:
                    self.f(k)
        except Boom as e:
            rec["exc"] = True
            drop_tb(e)
        finally:
            rec["e"], rec["et"] = self.tick()

    # judging ------------------------------------------------------------------
    def slack(self) -> float:
        return self.sim.stall_total + EPS

    def judge(self) -> None:
        sim, plan, ivl = self.sim, self.plan, self.ivl
        fail = sim.fail
        slack = self.slack()
        deb = plan["kind"] == "debounce"
        seen = set()
        for r in self.runs:
            k = r["k"]
            c = self.byk.get(k)
            if c is None:
                continue
            if k in seen:
                fail("duplicate", f"call {k} was passed on twice")
            seen.add(k)
            # what else may have made this invocation happen, other than the timer
            direct = [
                x for x in (*self.flushes, *self.calls)
                if x["thr"] == r["thr"] and x["s"] < r["s"] and x["e"] >= r["e"]
            ]
            by_flush = any(x in self.flushes for x in direct)
            by_call = bool(direct) and not by_flush
            # cancelled calls
            for x in self.cancels:
                if not (c["e"] < x["s"] and x["e"] < r["s"]):
                    continue
                if direct and min(d["s"] for d in direct) < x["e"]:
                    continue  # a flush or call was already passing it on
                if c["t"] + ivl <= x["et"] + EPS or self.due_before(c, x["et"]):
                    continue  # its time had come: it may have begun
                fail("cancelled", f"call {k} was passed on although cancelled before")
            # superseded calls: a newer call was complete before this could begin
            newer = [m for m in self.calls if m["s"] > c["e"] and m["e"] < r["s"]]
            for m in newer:
                if direct and min(d["s"] for d in direct) < m["e"]:
                    continue
                if m["et"] + EPS < c["t"] + (ivl if deb else self.earliest(c)):
                    fail("stale", f"call {k} was passed on after the newer call {m['k']}")
                    break
            if by_call and not self.lead:
                fail("not-trailing", f"call {k} invoked the function directly")
            if deb and not direct:
                # quiet interval: the latest call that must have been seen
                last = max(
                    (m for m in self.calls if m["e"] <= c["e"]), key=lambda m: m["s"],
                    default=c,
                )
                if r["t"] + slack < last["t"] + ivl:
                    fail("early", f"call {k} passed on {r['t'] - last['t']:.4f} s after it")
            if not deb and not direct and not self.lead:
                pass
        # rate
        prev = None
        for r in self.runs:
            if prev is not None and not deb:
                reset = any(x["s"] < r["s"] and x["e"] > prev["s"] for x in self.cancels)
                flush = self.flushed(r) or (
                    # overtaken between being taken and entering the function
                    self.flushed(prev) and self.byk.get(r["k"], r)["s"] < prev["s"]
                )
                if not reset and not flush and r["t"] - prev["t"] + slack < ivl:
                    fail(
                        "rate",
                        f"invoked {r['t'] - prev['t']:.4f} s after the previous invocation",
                    )
            prev = r
        # the last call is never lost
        if self.calls:
            self.judge_last(slack)
        if not deb:
            self.judge_steady(slack)
        self.judge_leading()
        self.judge_flush()

    def flushed(self, r) -> bool:
        return any(x["s"] < r["s"] < x["e"] and x["thr"] == r["thr"] for x in self.flushes)

    def due_before(self, c, t) -> bool:
        """Could the timer have taken call c before time t?"""
        if self.plan["kind"] == "debounce":
            return c["t"] + self.ivl <= t + EPS
        # throttled: an interval since any earlier call or invocation's start may end
        return any(
            x["t"] + self.ivl <= t + EPS
            for x in (*self.calls, *self.runs)
            if x["s"] <= c["s"] and x["t"] + self.ivl >= c["t"] - self.slack()
        ) or any(
            x["et"] + self.ivl <= t + EPS
            for x in self.runs
            if x["et"] + self.ivl >= c["t"] - self.slack()
        )

    def earliest(self, c) -> float:
        """Throttler: how long after call c its invocation may begin at the earliest."""
        best = self.ivl
        for x in (*self.calls, *self.runs):
            if x["s"] <= c["s"] or x in self.runs:
                for t in (x["t"], x["et"]):
                    d = t + self.ivl - c["t"]
                    if d >= -self.slack():
                        best = min(best, d)
        return max(0.0, best)

    def judge_last(self, slack) -> None:
        last = max(self.calls, key=lambda c: c["s"])
        # the latest calls: those no other call certainly followed
        tops = [c for c in self.calls if not any(m["s"] > c["e"] for m in self.calls)]
        if any(x["e"] > c["s"] for x in self.cancels for c in tops):
            return
        mine = [r for r in self.runs if any(r["k"] == c["k"] for c in tops)]
        if not mine:
            self.sim.fail("lost", f"the last call ({last['k']}) was never passed on")
            return
        due = last["t"]
        for r in self.runs:  # it may have to wait for running invocations
            if r["et"] != INF and r not in mine:
                due = max(due, r["et"])
        t = min(r["t"] for r in mine)
        if t > due + self.ivl + slack:
            self.sim.fail(
                "overdue",
                f"the last call was passed on {t - due:.4f} s after it became possible",
            )

    def judge_steady(self, slack) -> None:
        """Throttler: each call, or a later one, is passed on within an interval."""
        for c in self.calls:
            if any(x["e"] > c["s"] for x in self.cancels):
                continue
            due, t = c["t"], INF
            for r in self.runs:
                m = self.byk.get(r["k"], c)
                if m["e"] > c["s"]:  # not made certainly before c
                    t = min(t, r["t"])
                elif r["et"] > due:  # it may have to wait for earlier ones
                    due = r["et"]
            if t > due + self.ivl + slack:
                self.sim.fail(
                    "starved",
                    f"neither call {c['k']} nor a later one was passed on within "
                    f"{t - due:.4f} s",
                )

    def judge_leading(self) -> None:
        """With one calling thread: an idle leading one invokes at once."""
        if len(self.plan["threads"]) > 1 or self.sim.stall_total:
            return
        done = 0.0
        for c in self.calls:
            if c["thr"] != 0 or any(r["s"] < c["s"] < r["e"] for r in self.runs):
                continue
            before = [r for r in self.runs if r["s"] < c["s"]]
            events = [r["et"] for r in before]
            if self.plan["kind"] == "debounce":
                events += [x["t"] for x in self.calls if x["s"] < c["s"]]
            done = max(events, default=-INF)
            pend = [x for x in self.calls if x["s"] < c["s"]
                    and not any(r["k"] >= x["k"] for r in before)]
            if any(x["s"] < c["s"] for x in self.cancels):
                pend = [x for x in pend if not any(
                    x["s"] < y["s"] < c["s"] for y in self.cancels)]
            if pend or done + self.ivl >= c["t"] - EPS:
                continue
            hit = any(r["k"] == c["k"] and c["s"] < r["s"] < c["e"] for r in self.runs)
            if self.lead and not hit:
                self.sim.fail("not-leading", f"call {c['k']} while idle was postponed")

    def judge_flush(self) -> None:
        for x in self.flushes:
            # calls certainly pending at its start: complete, not passed on, not cancelled
            cs = [c for c in self.calls if c["e"] < x["s"]]
            if not cs:
                continue
            c = max(cs, key=lambda c: c["s"])
            if any(m["s"] > c["s"] and m["s"] < x["s"] and m["e"] > x["s"]
                   for m in self.calls):
                continue
            if any(m["e"] > c["s"] and m["s"] < c["e"] and m is not c for m in self.calls):
                continue  # overlapping calls: either may be the last one
            if any(y["e"] > c["s"] and y["s"] < x["e"] for y in self.cancels):
                continue
            rs = [r for r in self.runs if r["k"] == c["k"]]
            if any(m["s"] < x["e"] and m["s"] > x["s"] for m in self.calls):
                if not rs:
                    continue  # superseded by a call made meanwhile
            if not rs:
                self.sim.fail("not-flushed", f"flush() did not pass on call {c['k']}")
                continue
            r = rs[0]
            if r["s"] > x["e"]:
                # begun, but not yet entered, by another thread is the only excuse
                if r["t"] - x["et"] > self.sim.stall_total + EPS or not self.begun(c, r, x):
                    self.sim.fail("not-flushed", f"flush() did not pass on call {c['k']}")

    def begun(self, c, r, x) -> bool:
        """May another thread have taken call c before flush x returned?"""
        if self.due_before(c, x["et"]):
            return True
        return any(
            y["thr"] == r["thr"] and y["s"] < x["e"] and y["e"] > r["s"]
            for y in (*self.calls, *self.flushes)
        )


class Base(Scenario):
    threaded = False
    nthreads = (1,)
    kinds = ("throttle", "debounce")
    w_ops = {"call": 8, "z": 6}
    w_func = {"call": 2, "z": 2, "raise": 2}
    p_func = 0.4
    nops = (2, 14)
    shrink_keys = ("ops", "func", "styles")
    horizon = 200

    def gen(self, rng, tier):
        nt = rng.choice(self.nthreads)
        ivl = rng.choice([20, 100, 100, 3])
        func = []
        if rng.random() < self.p_func:
            for _ in range(rng.randint(1, 4)):
                func.append([self.op(rng, self.w_func, ivl, True)
                             for _ in range(rng.choice([0, 1, 1, 2]))])
        plan = {
            "kind": rng.choice(self.kinds),
            "interval": ivl,
            "lead": rng.choice([None, True, False]),
            "bare": rng.random() < 0.5,
            "signal": nt == 1 and not func and rng.random() < 0.2,
            "func": func,
            "styles": [rng.choice([0, 1, 1, 2]) for _ in range(rng.choice([1, 2, 3, 5]))],
            "threads": [
                {"ops": [self.op(rng, self.w_ops, ivl, False)
                         for _ in range(rng.randint(*self.nops))]}
                for _ in range(nt)
            ],
            "end": rng.choice(["wait", "wait", "call"]),
            "empty": rng.choice([0, 0, 1, 2, 3, 4, 5]),
        }
        return plan

    def op(self, rng, table, ivl, inside):
        k = weighted(rng, table)
        if k == "raise":
            return [k, rng.randrange(len(BOOMS))]
        if k != "z":
            return [k]
        if inside:
            return [k, round(ivl * rng.choice([0.2, 0.7, 1.3, 2.6]), 3)]
        # close to, but not at, the instants at which timers fire
        return [k, round(ivl * rng.choice([0.03, 0.17, 0.31, 0.47, 0.83, 0.97, 1.03, 1.21,
                                           2.37, self.at]), 4)]

    at = 0.53

    def run(self, sim: Sim, plan: dict) -> None:
        w = World(sim, plan)

        def body(k):
            for o in plan["threads"][k]["ops"]:
                w.op(o)

        for k in range(1, len(plan["threads"])):
            sim.spawn(lambda k=k: body(k), f"t{k}")
        body(0)
        if plan["end"] == "call":
            w.op(["call"])
        sim.join_all()  # also waits for timers
        w.judge()
        if plan["end"] != "call":
            # still usable: a later call is passed on in time
            sim.sleep(3 * w.ivl)
            n, plan["func"] = len(w.runs), []
            w.budget = 1
            w.op(["call"])
            if w.lead and len(w.runs) == n and not sim.stall_total:
                sim.fail("not-leading", "a call after a long idle time was postponed")
            sim.join_all()
            if [r["k"] for r in w.runs[n:]] != [w.ncall]:
                sim.fail(
                    "unusable", f"a later call gave {len(w.runs) - n} invocations"
                )
        for c in (*w.calls, *w.runs):
            sim.log(c.get("k"), round(c["t"], 6), c["thr"])
        n = sum(1 for u in sim.uncaught if u[1].startswith("Boom"))
        for u in sim.uncaught:
            if not u[1].startswith("Boom"):
                sim.fail("thread-died", str(u))
        direct = sum(1 for x in (*w.calls, *w.flushes) if x.get("exc"))
        if n + direct < w.raised and not w.sig:
            sim.fail("swallowed", "an exception of the function was swallowed")
        if sim.unraisable:
            sim.fail("unraisable", sim.unraisable[0])

    def nontrivial(self, sim, plan):
        return any(
            len([o for o in t["ops"] if o[0] == "call"]) > 1 for t in plan["threads"]
        )


class Throttling(Base):
    name = "throttling"
    kinds = ("throttle",)


class Debouncing(Base):
    name = "debouncing"
    kinds = ("debounce",)


class CancelFlush(Base):
    name = "cancel-flush"
    w_ops = {"call": 7, "z": 6, "cancel": 2, "flush": 2}
    w_func = {"call": 2, "z": 2, "raise": 1.5, "cancel": 1, "flush": 1}
    p_func = 0.25


class Threads(Base):
    threaded = True
    nthreads = (1, 2, 2, 3)
    nops = (1, 7)
    stall_rate = 0.25
    at = 1.0
    w_func = {"call": 1, "z": 2, "raise": 1}


class ThrottlingThreads(Threads):
    name = "throttling-threads"
    kinds = ("throttle",)


class DebouncingThreads(Threads):
    name = "debouncing-threads"
    kinds = ("debounce",)


class CancelFlushThreads(Threads):
    name = "cancel-flush-threads"
    w_ops = {"call": 7, "z": 5, "cancel": 2, "flush": 2}
    w_func = {"call": 1, "z": 2, "raise": 1, "cancel": 0.5, "flush": 0.5}


class DyingArguments(Threads):
    """Arguments of calls that are never passed on are finalized somewhere."""

    name = "dying-arguments"
    w_ops = {"call": 7, "z": 2, "cancel": 2, "flush": 1, "death": 3}
    w_func = {"call": 1, "z": 2, "cancel": 0.5, "flush": 0.5}
    shrink_keys = ("ops", "func", "styles", "dying")

    def gen(self, rng, tier):
        plan = super().gen(rng, tier)
        plan["signal"] = False
        plan["dying"] = [rng.choice(["plain", "plain", "cancel", "flush"])
                         for _ in range(rng.choice([1, 2, 3]))]
        for t in plan["threads"]:
            for o in t["ops"]:
                if o[0] == "death":
                    o.append(rng.choice(["plain", "cancel", "flush"]))
        return plan

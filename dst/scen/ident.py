"""C05: Signal.sender() and Signal.current_emitter() in callbacks and outside."""

from __future__ import annotations

from psygnal import EmitLoopError, Signal, SignalInstance

from ..base import Scenario
from ..core import Sim, SimAbort
from ..lib import drop_tb


class Owner:
    a = Signal(int)
    b = Signal(int, reemission="queued")
    c = Signal(int, reemission="latest-only")


class Boom(Exception):
    pass


class Emitter(Scenario):
    name = "emitter"
    stall_rate = 0.15

    def gen(self, rng, tier):
        nobj = rng.choice([1, 1, 2])
        ns = nobj * 3 + 1
        slots = []
        for _ in range(rng.randint(1, 7)):
            s = rng.randrange(ns)
            sp = {"s": s, "kind": rng.choice(["func", "method"])}
            if rng.random() < 0.7:
                sp["script"] = [
                    [self.act(rng, s, ns) for _ in range(rng.randint(0, 3))]
                    for _ in range(rng.randint(1, 3))
                ]
            slots.append(sp)
        used = sorted({sp["s"] for sp in slots})
        threads = []
        for _ in range(rng.choice([1, 2, 2, 2, 3])):
            threads.append(
                {"ops": [[rng.choice("eeeerp"), rng.choice(used)]
                         for _ in range(rng.randint(1, 5))]}
            )
        return {"objs": nobj, "slots": slots, "threads": threads}

    shrink_keys = ("ops", "slots", "script", "threads")

    def act(self, rng, s, ns):
        r = rng.random()
        if r < 0.12:
            return ["raise"]
        if r < 0.2:
            return ["spawn", rng.randrange(ns)]
        # only later signals (or its own): callbacks hold their signal's lock
        t = s if rng.random() < 0.25 else rng.randrange(s, ns)
        if r < 0.75:
            return ["e", t]
        if r < 0.85:
            return ["r", t]
        return ["p", t]

    def run(self, sim: Sim, plan: dict) -> None:
        sim.quiet = True
        objs = [Owner() for _ in range(plan["objs"])]
        sigs = [getattr(o, n) for o in objs for n in "abc"]
        owner = [o for o in objs for _ in "abc"]
        sigs.append(SignalInstance((int,), name="free"))
        owner.append(None)
        budget = [40]
        keep = []

        def expect(s, where):
            got_e, got_s = Signal.current_emitter(), Signal.sender()
            e = None if s is None else sigs[s]
            o = None if s is None else owner[s]

            def nm(x):
                for k, y in enumerate(sigs):
                    if x is y:
                        return f"signal {k}"
                return repr(x) if x is None else type(x).__name__

            if got_e is not e:
                sim.fail(
                    "current-emitter",
                    f"{where}: current_emitter() is {nm(got_e)} instead of {nm(e)}",
                )
            if got_s is not o:
                sim.fail("sender", f"{where}: wrong sender() (current signal {nm(e)})")

        def do(o, me):
            k = o[0]
            if budget[0] <= 0:
                return
            budget[0] -= 1
            if k == "raise":
                sim.fault("callback-raises")
                raise Boom
            if k == "spawn":
                keep.append(sim.spawn(lambda: top([["e", o[1]]]), "sub"))
                return
            sig = sigs[o[1]]
            try:
                if k == "e":
                    sig.emit(1)
                elif k == "r":  # re-raise nothing: failures are swallowed here anyway
                    with sig.blocked():
                        sig.emit(2)
                    sig.emit(3)
                else:
                    with sig.paused():
                        sig.emit(4)
                        expect(me, "while pausing another signal")
            except EmitLoopError as e:
                drop_tb(e)
                sim.stat("nested-failed")

        def make(i, sp):
            n = [0]

            def hit(x):
                sim.stat("calls")
                s = sp["s"]
                expect(s, f"slot {i} on entry")
                sim.point()
                expect(s, f"slot {i} after a pause")
                script = sp.get("script") or []
                acts = script[n[0]] if n[0] < len(script) else []
                n[0] += 1
                for a in acts:
                    do(a, s)
                    expect(s, f"slot {i} after {a}")

            if sp["kind"] == "func":
                return hit

            class R:
                def m(self, x):
                    hit(x)

            keep.append(R())
            return keep[-1].m

        for i, sp in enumerate(plan["slots"]):
            sigs[sp["s"]].connect(make(i, sp))

        def top(ops):
            expect(None, "thread outside of emissions")
            for o in ops:
                try:
                    do(o, None)
                except SimAbort:
                    raise
                expect(None, f"after {o} outside of emissions")

        sim.quiet = False
        for k, t in enumerate(plan["threads"][1:]):
            sim.spawn(lambda t=t: top(t["ops"]), f"t{k + 1}")
        if plan["threads"]:
            top(plan["threads"][0]["ops"])
        sim.join_all()
        sim.quiet = True
        expect(None, "at the end")
        for u in sim.uncaught:
            sim.fail("thread-died", str(u))

    def nontrivial(self, sim, plan):
        return sim.preemptions > 0 or "nested-failed" in sim.stats

    def state(self, sim, plan):
        return (sim.digest(), repr(plan))

"""C04: whatever failed inside whatever else, the signals then work as fresh ones do.

Callbacks emit (in all ways, to any signal, themselves included), pause, block and fail.
What such a tangle delivers is judged elsewhere; here it is unwound, and then plain
emissions must reach the connected callbacks, once each, in order, and nothing else may.
"""

from __future__ import annotations

from psygnal import EmitLoopError, Signal, SignalGroup, SignalInstance, emit_queued

from ..base import Scenario
from ..core import Sim, SimAbort
from ..lib import drop_tb, weighted
from .hist import EXC

MODES = ("immediate", "queued", "latest-only")
GROUPS = {
    m: type(f"G{m[0]}", (SignalGroup,), {n: Signal(int, int, reemission=m) for n in "ab"})
    for m in MODES
}
emit_queued()  # (the main thread's queue exists from then on)


class World:
    def __init__(self, sim: Sim, plan: dict) -> None:
        self.sim = sim
        self.plan = plan
        self.n = 0
        self.budget = plan["budget"]
        self.calm = False
        self.got: list = []
        self.group = GROUPS[plan["gmode"]]()
        self.sigs = [
            SignalInstance((int, int), name=f"s{i}", reemission=m)
            for i, m in enumerate(plan["modes"])
        ] + [self.group.a, self.group.b]
        self.ncalls = [0] * len(plan["slots"])
        self.funcs = []
        for i, sp in enumerate(plan["slots"]):
            self.funcs.append(f := self.make(i, sp))
            if sp["via"] == "group":
                self.group.connect(f, priority=sp["prio"])
            else:
                self.sigs[sp["sig"] % len(self.sigs)].connect(
                    f, priority=sp["prio"], thread="main" if sp["via"] == "main" else None)

    def make(self, i, sp):
        def f(*a):
            if sp["via"] == "group":
                a = a[0].args
            if self.calm:
                self.got.append((i, a))
                return
            n = self.ncalls[i]
            self.ncalls[i] += 1
            for act in sp["script"][n] if n < len(sp["script"]) else ():
                self.act(act)

        return f

    # -- the tangle -------------------------------------------------------------
    def act(self, a) -> None:
        k = a[0]
        if k == "raise":
            e = EXC[a[1]]()
            self.sim.fault("callback-raises")
            raise e
        if k in ("e", "f", "q"):
            if self.budget <= 0:
                return
            self.budget -= 1
            self.n += 1
            if k == "q":
                emit_queued()
                return
            s = self.sigs[a[1] % len(self.sigs)]
            (s.emit if k == "e" else s.emit_fast)(self.n, -1)
        elif k == "try":
            try:
                for x in a[1]:
                    self.act(x)
            except SimAbort:
                raise
            except BaseException as e:
                drop_tb(e)
        elif k in ("pause", "block"):
            s = self.sigs[a[1] % len(self.sigs)]
            if a[2]:
                s = self.group
            with s.paused() if k == "pause" else s.blocked():
                for x in a[3]:
                    self.act(x)

    def top(self, a, thread) -> None:
        what: list = []

        def go():
            try:
                self.act(a)
            except SimAbort:
                raise
            except BaseException as e:
                what.append(type(e).__name__)
                drop_tb(e)

        if thread:
            self.sim.spawn(go, "w")
            self.sim.join_all()
        else:
            go()
        self.sim.log(a[0], what, self.n)

    # -- the aftermath ------------------------------------------------------------
    def probe(self, hows) -> None:
        self.calm = True
        while self.drain():
            pass
        slots = self.plan["slots"]
        for s, sig in enumerate(self.sigs):
            how = hows[s % len(hows)]
            self.got.clear()
            self.n += 1
            tok = (self.n, s)
            try:
                if how == "thread":
                    self.sim.spawn(lambda: sig.emit(*tok), "probe")
                    self.sim.join_all()
                elif how == "fast":
                    sig.emit_fast(*tok)
                elif how == "pause":
                    with sig.paused():
                        sig.emit(*tok)
                        if self.got:
                            self.sim.fail("not-paused", f"{self.got} called while paused")
                else:
                    sig.emit(*tok)
            except SimAbort:
                raise
            except BaseException as e:
                c = e.__cause__
                self.sim.fail(
                    f"probe-{type(c if c is not None else e).__name__}",
                    f"{how} on {self.name(s)} raised {e!r} afterwards, though no callback failed")
                drop_tb(e)
                continue
            self.drain()
            if how in ("fast",):  # (what the group is told then is not specified)
                got = [x for x in self.got if slots[x[0]]["via"] != "group"]
            else:
                got = list(self.got)
            want = [
                (i, tok) for i, sp in enumerate(slots)
                if (sp["via"] == "group" and how != "fast" and sig in (self.group.a, self.group.b))
                or (sp["via"] != "group" and self.sigs[sp["sig"] % len(self.sigs)] is sig)
            ]
            if sorted(got) != sorted(want):
                self.sim.fail(
                    "aftermath",
                    f"{how} on {self.name(s)} called (slot, args) {got} instead of {want}")
            for via in ("sig", "main", "group"):
                if via == "main" and how != "thread":
                    continue  # (called directly, with the others)
                ks = [i for i, _ in got if slots[i]["via"] == via
                      or (via == "sig" and how != "thread" and slots[i]["via"] == "main")]
                if ks != sorted(ks, key=lambda i: (-slots[i]["prio"], i)):
                    self.sim.fail("order", f"{how} on {self.name(s)} called slots in order {ks}")
            self.sim.log("probe", s, how, got)
        self.calm = False

    def name(self, s) -> str:
        return f"signal {s} ({[*self.plan['modes'], self.plan['gmode'], self.plan['gmode']][s]})"

    def drain(self) -> bool:
        try:
            emit_queued()
        except EmitLoopError as e:
            drop_tb(e)
            return True
        return False


class Aftermath(Scenario):
    """C04."""

    name = "aftermath"
    threaded = False
    shrink_keys = ("ops", "script")

    def gen(self, rng, tier):
        modes = [rng.choice(MODES) for _ in range(rng.choice([0, 1, 1, 2]))]
        ns = len(modes) + 2
        exc = rng.choice([["value"], ["value", "badstr", "ref", "stop"], ["kbd", "value", "gen"]])
        p_raise = rng.choice([0.15, 0.3, 0.5])

        def acts(depth=0):
            out = []
            for _ in range(rng.choice([1, 1, 2])):
                k = weighted(rng, {"e": 6, "f": 2.5, "try": 2, "pause": 1.5, "block": 0.7,
                                   "q": 0.4})
                if k in ("e", "f"):
                    out.append([k, pick()])
                elif k == "q":
                    out.append([k])
                elif depth < 2:
                    out.append([k, acts(depth + 1)] if k == "try" else
                               [k, pick(), rng.random() < 0.2, acts(depth + 1)])
            if rng.random() < p_raise:
                out.insert(rng.randint(0, len(out)), ["raise", rng.choice(exc)])
            return out

        main = rng.randrange(ns)  # (most of it about one signal)

        def pick():
            return main if rng.random() < 0.6 else rng.randrange(ns)

        slots = [
            {
                "via": rng.choice(["sig", "sig", "sig", "group", "main"]),
                "sig": pick(),
                "prio": rng.choice([0, 0, 0, 1, -1]),
                "script": [acts() for _ in range(rng.choice([0, 1, 2, 4]))],
            }
            for _ in range(rng.randint(1, 5))
        ]
        ops = [[acts()[0] if rng.random() < 0.3 else [rng.choice("eef"), pick()],
                rng.random() < 0.25,
                [rng.choice(["emit", "emit", "thread", "fast", "pause"]) for _ in range(ns)]
                if rng.random() < 0.6 else []]
               for _ in range(rng.randint(1, 6))]
        ops[-1][2] = ops[-1][2] or ["emit"]
        return {"modes": modes, "gmode": rng.choice(MODES), "slots": slots, "ops": ops,
                "budget": rng.choice([10, 30])}

    def run(self, sim: Sim, plan: dict) -> None:
        emit_queued()  # (the main thread's queue outlives a run)
        w = World(sim, plan)
        for a, thread, hows in plan["ops"]:
            w.top(a, thread)
            if hows:
                w.probe(hows)
        if sim.unraisable:
            sim.fail("unraisable", sim.unraisable[0])
        for u in sim.uncaught:
            sim.fail("thread-died", str(u))

    def nontrivial(self, sim, plan):
        return any(k.startswith("callback-raises") for k in sim.faults)

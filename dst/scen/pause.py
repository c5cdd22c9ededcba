"""C07: pausing postpones emissions, resuming delivers each exactly once."""

from __future__ import annotations

from psygnal import EmitLoopError, Signal, SignalGroup, SignalInstance

from ..base import Scenario
from ..core import Sim, SimAbort
from ..lib import BOOMS, KINDS, Boom, Frames, drop_tb, unwrap, wrap

INF = float("inf")


class Group(SignalGroup):
    a = Signal(tuple)
    b = Signal(tuple)


# what reducers may start from
class Reduced(tuple):
    """What a reducer made."""


# how the body of a `with paused()` is left
LEAVE = [Boom, Boom, KeyboardInterrupt, GeneratorExit, StopIteration, SystemExit]
INITIAL = [((),), (), None, 0, "", [], False, ("x",)]


class World:
    def __init__(self, sim: Sim, plan: dict) -> None:
        self.sim = sim
        self.plan = plan
        self.seq = 0
        self.kind = plan["kind"]
        if self.kind == "group":
            self.group = Group()
            self.target = self.group.all if plan.get("relay") else self.group
            self.emitters = [self.group.a, self.group.b]
        else:
            self.target = SignalInstance((tuple,), name="s", reemission=plan["mode"])
            self.emitters = [self.target]
        self.toks: dict[int, dict] = {}
        self.calls: list[dict] = []
        self.ctl: list[dict] = []
        self.ncalls = [0] * len(plan["slots"])
        self.raised: list[BaseException] = []
        self.frames = Frames(sim)
        self.budget = 40
        self.slots = []
        for i in range(len(plan["slots"])):
            f = self.make(i)
            self.slots.append(f)
            self.target.connect(f)

    def tick(self) -> int:
        self.seq += 1
        return self.seq

    def make(self, i):
        def slot(x):
            if self.kind == "group":
                got, args = x.signal, unwrap(x.args[0])
                em = {"a": 0, "b": 1}.get(got.name)
            else:
                args, em = unwrap(x), 0
            self.called(i, args, em)

        return slot

    def called(self, i, toks, em) -> None:
        sim = self.sim
        rec = {"i": i, "toks": toks, "start": self.tick(), "thr": sim.me(), "exc": False,
               "depth": self.depth(), "red": isinstance(toks, Reduced)}
        self.calls.append(rec)
        for t in toks:
            if t not in self.toks:
                sim.fail("bad-args", f"slot {i} got {toks!r}, which nobody emitted")
                return
        if self.kind == "group" and len(toks) == 1 and self.toks[toks[0]]["em"] != em:
            sim.fail("bad-info", f"emission of {self.toks[toks[0]]['em']} reported as {em}")
        sim.point()
        n = self.ncalls[i]
        self.ncalls[i] += 1
        script = self.plan["slots"][i].get("script") or []
        for a in script[n] if n < len(script) else ():
            if a[0] == "raise":
                e = BOOMS[(i + n) % len(BOOMS)]()
                self.raised.append(e)
                self.frames.raised(e)
                rec["exc"] = True
                sim.fault("callback-raises")
                raise e
            self.sim.stat("reentrant-" + a[0])
            self.op(a)

    def depth(self) -> int:
        me = self.sim.me()
        return sum(1 for t in self.toks.values() if t["thr"] == me and t["e"] == INF) + sum(
            1 for c in self.ctl if c["thr"] == me and c["end"] == INF
        )

    # ---------------------------------------------------------------- operations
    def op(self, o) -> None:
        k = o[0]
        if k == "e":
            self.emit(o[1] % len(self.emitters), bool(o[2]) and self.kind == "inst")
        elif k == "p":
            c = self.begin("p")
            self.target.pause()
            c["end"] = self.tick()
        elif k == "r":
            self.resume(o[1])
        elif k == "w":
            self.with_paused(o[1], o[2], o[3])
        elif k == "z":
            self.sim.sleep(o[1])

    def begin(self, k, red=None):
        c = {"k": k, "start": self.tick(), "end": INF, "thr": self.sim.me(), "red": red,
             "err": False, "nested": self.depth() > 0}
        self.ctl.append(c)
        return c

    def emit(self, em, fast) -> None:
        if self.budget <= 0:
            return
        self.budget -= 1
        s = self.tick()
        d = {"s": s, "e": INF, "em": em, "thr": self.sim.me(), "nested": self.depth() > 0,
             "cut": False}
        self.toks[s] = d
        sig = self.emitters[em]
        f = self.frames.enter()
        try:
            (sig.emit_fast if fast else sig.emit)(wrap(self.plan.get("arg"), (s,)))
        except SimAbort:
            raise
        except EmitLoopError as e:
            d["cut"] = True
            d["e"] = self.tick()
            self.check(e)
        finally:
            d["e"] = self.tick()
            self.frames.leave(f, d["cut"], "the emission")

    def check(self, e) -> None:
        c = e.__cause__
        while isinstance(c, EmitLoopError):
            c = c.__cause__
        if not any(c is x for x in self.raised):
            self.sim.fail(
                f"error-{type(c).__name__}", f"EmitLoopError caused by {c!r}, which no "
                "callback raised"
            )
        drop_tb(e)

    def reducer(self, red):
        if self.kind == "group":
            from psygnal import EmissionInfo

            def wrap(infos):
                infos = list(infos)
                return (EmissionInfo(infos[0][0].signal,
                        (Reduced(t for i in infos for t in unwrap(i[0].args[0])),)),)
        else:

            def wrap(argss):
                return (Reduced(t for a in argss for t in unwrap(a[0])),)

        if red == "one":
            return (lambda it: wrap(it),)
        if red == "two":
            return (lambda a, b: wrap([a, b]),)
        if red == "init":
            init = INITIAL[self.plan.get("initial", 0)]
            started: list = []

            def reduce(a, b):
                if not started and a is not init:
                    self.sim.fail("initial", f"the first call of a reducer got {a!r} instead "
                                  f"of the initial value {init!r}")
                started.append(1)
                return wrap([b] if a is init else [a, b])

            return (reduce, init)
        return ()

    def resume(self, red) -> None:
        c = self.begin("r", red)
        f = self.frames.enter()
        try:
            self.target.resume(*self.reducer(red))
        except SimAbort:
            raise
        except EmitLoopError as e:
            c["err"] = True
            self.check(e)
        finally:
            c["end"] = self.tick()
            self.frames.leave(f, c["err"], "resume()")

    def with_paused(self, red, body, fail) -> None:
        """paused() as a context manager; only the outermost one resumes."""
        c = self.begin("p")
        if self.target_paused:
            c["k"] = "n"  # nested: leaves nothing changed
            inner = True
        else:
            inner = False
        ctx = self.target.paused(*self.reducer(red))
        r = f = None
        left = False
        try:
            with ctx:
                c["end"] = self.tick()
                self.withs += 1
                try:
                    for o in body:
                        self.op(o)
                    if fail:
                        self.sim.fault("body-raises")
                        raise LEAVE[fail % len(LEAVE)]
                finally:
                    self.withs -= 1
                    f = self.frames.enter()
                    if not inner:
                        r = self.begin("r", red)
        except SimAbort:
            raise
        except EmitLoopError as e:
            if r is None:
                raise
            r["err"] = left = True
            self.check(e)
        except tuple(LEAVE) as e:
            left = True
            drop_tb(e)
        finally:
            if f is not None:
                self.frames.leave(f, left, "leaving paused()")
            c["end"] = min(c["end"], self.tick())
            if r is not None:
                r["end"] = self.tick()

    withs = 0

    @property
    def target_paused(self) -> bool:
        last = [c for c in self.ctl if c["end"] != INF and c["k"] in "pr"]
        return bool(last) and last[-1]["k"] == "p"

    # -------------------------------------------------------------------- judge
    def judge(self) -> None:
        sim = self.sim
        pauses = [c for c in self.ctl if c["k"] == "p"]
        resumes = [c for c in self.ctl if c["k"] == "r"]
        got: dict[tuple, list] = {}
        for c in self.calls:
            if len(set(c["toks"])) != len(c["toks"]):
                sim.fail("duplicate", f"a reduced emission holds {c['toks']}")
            for t in c["toks"]:
                got.setdefault((c["i"], t), []).append(c)
        fails = [c for c in self.calls if c["exc"]]
        for (i, t), cs in got.items():
            if len(cs) > 1:
                sim.fail("duplicate", f"slot {i} got emission {t} {len(cs)} times")
        for t, d in self.toks.items():
            before = [r for r in resumes if r["end"] < d["s"]]
            last_r = max((r["end"] for r in before), default=0)
            # paused for sure: some pause ended before it, later than any resume that
            # may have undone it
            held = [
                p for p in pauses
                if p["end"] < d["s"]
                and not any(r["end"] > p["start"] and r["start"] < d["e"] for r in resumes)
            ]
            nxt = min((r["start"] for r in resumes if r["start"] > d["e"]), default=INF)
            free = not any(
                p["start"] < d["e"]
                and not any(r["start"] > p["end"] and r["end"] < d["s"] for r in before)
                for p in pauses
            )
            for i in range(len(self.slots)):
                cs = got.get((i, t), [])
                c = cs[0] if cs else None
                if c is not None:
                    if c["start"] < d["s"]:
                        sim.fail("early", f"slot {i} got {t} before it was emitted")
                    if held and c["start"] < nxt:
                        sim.fail(
                            "not-postponed",
                            f"slot {i} got {t}, emitted while paused, before any resume",
                        )
                # what must have been delivered, and by when
                if free:
                    limit = d["e"]
                    if d["nested"] and self.plan["mode"] != "immediate":
                        limit = INF
                    own_cut = d["cut"] or any(t in f["toks"] for f in fails)
                else:
                    after = [
                        r for r in resumes
                        if r["start"] > d["e"]
                        and not (r["nested"] and self.plan["mode"] != "immediate")
                        and not any(
                            x is not r and x["start"] < r["end"] and x["end"] > r["start"]
                            for x in resumes
                        )
                    ]
                    limit = after[0]["end"] if after else INF
                    own_cut = d["cut"] or any(t in f["toks"] for f in fails)
                late = c is None or c["start"] > limit
                if not late or own_cut:
                    continue
                if c is not None and c["start"] > limit:
                    sim.fail(
                        "late",
                        f"slot {i} got {t} only after the resume that should deliver it",
                    )
                elif not self.may_be_lost(t, d, i, fails, resumes):
                    sim.fail("lost", f"slot {i} never got emission {t}")
            del last_r
        self.judge_order(got)
        self.judge_reduced(resumes)

    def may_be_lost(self, t, d, i, fails, resumes) -> bool:
        """A callback failed while it was being replayed (or queued behind) it."""
        for r in resumes:
            if r["err"] and r["end"] > d["s"]:
                return True
        if self.plan["mode"] == "queued" and fails:
            # an emission queued behind a failing one is dropped with it, and one that a
            # callback resumes is queued behind the one being handled
            return d["nested"] or any(r["nested"] and r["end"] > d["s"] for r in resumes)
        return False

    def judge_order(self, got) -> None:
        last: dict[tuple, int] = {}
        for c in self.calls:
            for t in c["toks"]:
                d = self.toks[t]
                if d["nested"]:
                    continue
                key = (c["i"], d["thr"])
                if last.get(key, 0) > t:
                    self.sim.fail(
                        "order",
                        f"slot {c['i']} got {t} after {last[key]} of the same thread",
                    )
                last[key] = t

    def judge_reduced(self, resumes) -> None:
        for r in resumes:
            if not r["red"] or r["nested"]:
                continue
            for i in range(len(self.slots)):
                cs = [
                    c for c in self.calls
                    if c["i"] == i and c["thr"] == r["thr"]
                    and r["start"] < c["start"] < r["end"]
                    and not all(self.toks[t]["s"] > r["start"] for t in c["toks"])
                ]
                if len(cs) > 1:
                    self.sim.fail(
                        "not-reduced",
                        f"resume with a reducer delivered {[c['toks'] for c in cs]}",
                    )
                if r["red"] in ("one", "init") and any(not c["red"] for c in cs):
                    self.sim.fail(
                        "not-reduced", f"{cs[0]['toks']} did not go through the reducer")
        # more than one emission together only ever comes out of a reducer
        for c in self.calls:
            if len(c["toks"]) > 1 and not any(
                r["red"] and r["start"] < c["start"] < r["end"] for r in resumes
            ):
                self.sim.fail("reduced", f"emissions {c['toks']} merged without a reducer")
            if len(c["toks"]) == 0:
                self.sim.fail("empty", "an emission was made up by resume()")


class Pausing(Scenario):
    """Histories in one thread."""

    name = "pausing"
    threaded = False
    nthreads = (1,)
    p_raise = 0.12

    def gen(self, rng, tier):
        kind = rng.choice(["inst", "inst", "group"])
        mode = "immediate" if kind == "group" else rng.choice(
            ["immediate", "immediate", "queued"]
        )
        slots = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            sp = {}
            if rng.random() < 0.5:
                sp["script"] = [self.acts(rng) for _ in range(rng.randint(1, 5))]
            slots.append(sp)
        threads = [{"ops": self.ops(rng, 3)} for _ in range(rng.choice(self.nthreads))]
        if kind == "group" and len(threads) > 1:
            # callbacks of a group run under the locks of the member and of the group:
            # emitting other members in several threads may (by design) deadlock
            for sp in slots:
                if "script" in sp:
                    sp["script"] = [
                        [a for a in acts if a[0] != "e"] for acts in sp["script"]
                    ]
        return {"kind": kind, "relay": rng.random() < 0.3, "mode": mode, "slots": slots,
                "threads": threads, "arg": rng.choice(KINDS),
                "initial": rng.randrange(len(INITIAL))}

    shrink_keys = ("ops", "script", "body")

    def acts(self, rng):
        r = rng.random()
        if r < 0.35:
            return []
        if r < 0.35 + self.p_raise:
            return [["raise"]]
        if r < 0.75:
            return [["e", rng.randrange(2), rng.random() < 0.2]]
        if r < 0.9:
            return [["r", None]]
        return [["e", 0, False], ["e", 1, False]]

    def red(self, rng):
        return rng.choice([None, None, None, "one", "two", "init"])

    def ops(self, rng, depth):
        out = []
        for _ in range(rng.randint(1, 7 if depth == 3 else 4)):
            r = rng.random()
            if r < 0.5:
                out.append(["e", rng.randrange(2), rng.random() < 0.25])
            elif r < 0.66 and depth == 3:
                out.append(["p"])
            elif r < 0.82 and depth == 3:
                out.append(["r", self.red(rng)])
            elif depth > 1:
                out.append(["w", self.red(rng), self.ops(rng, depth - 1),
                            rng.choice([0] * 5 + [rng.randint(1, 6)])])
        return out

    def run(self, sim: Sim, plan: dict) -> None:
        sim.quiet = True
        w = World(sim, plan)
        sim.quiet = False

        def body(k):
            for o in plan["threads"][k]["ops"]:
                w.op(o)

        for k in range(1, len(plan["threads"])):
            sim.spawn(lambda k=k: body(k), f"t{k}")
        if plan["threads"]:
            body(0)
        sim.join_all()
        sim.quiet = True
        w.op(["r", None])
        w.op(["r", None])
        w.op(["e", 0, False])
        w.judge()
        for c in w.calls:
            sim.log(c["i"], c["toks"], c["thr"])
        for u in sim.uncaught:
            sim.fail("thread-died", str(u))
        for e in w.raised:
            drop_tb(e)

    def nontrivial(self, sim, plan):
        return True


class PausingThreads(Pausing):
    """Several threads emit, pause and resume."""

    name = "pausing-threads"
    threaded = True
    nthreads = (2, 2, 3)
    stall_rate = 0.2
    p_raise = 0.04

    def ops(self, rng, depth):
        out = []
        for _ in range(rng.randint(1, 6)):
            r = rng.random()
            if r < 0.6:
                out.append(["e", rng.randrange(2), False])
            elif r < 0.78:
                out.append(["p"])
            else:
                out.append(["r", self.red(rng)])
        return out

    def nontrivial(self, sim, plan):
        return sim.preemptions > 0

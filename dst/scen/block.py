"""C06: nested and concurrent blocking of signals and groups."""

from __future__ import annotations

from psygnal import EmitLoopError, Signal, SignalGroup, SignalInstance

from ..base import Scenario
from ..core import Sim, SimAbort
from ..lib import drop_tb

INF = float("inf")
NAMES = ("a", "b", "c")


class Boom(Exception):
    pass


class Group(SignalGroup):
    a = Signal(int)
    b = Signal(int)
    c = Signal(int)


class Named(SignalGroup):
    """Signals that have the names of others."""

    a = Signal(int, name="b")
    b = Signal(int, name="c")
    c = Signal(int)


class Blocking(Scenario):
    """One controlling thread blocks and emits; others may emit meanwhile.

    Model: three members, the group and one free signal; blocks nest like a stack and
    every exit restores what was there on entry.
    """

    name = "blocking"
    stall_rate = 0.1
    shrink_keys = ("ops", "body", "script", "threads")

    def gen(self, rng, tier):
        self.pauses = rng.random() < 0.25
        script = []
        if rng.random() < 0.4:
            script = [self.body(rng, 1, inside=True) for _ in range(rng.randint(1, 3))]
        ops = []
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            if r < 0.25:
                # explicit block/unblock only where no context is open
                ops.append([rng.choice(["B", "B", "U"]), rng.choice([0, 1, 2, 4])])
            elif r < 0.4:
                ops.append(["GB", self.excl(rng), self.body(rng, 2)])
            else:
                ops += self.body(rng, 3)
        threads = []
        if rng.random() < 0.6:
            for _ in range(rng.choice([1, 1, 2])):
                threads.append(
                    {"ops": [["e", rng.choice([0, 1, 2, 4])]
                             for _ in range(rng.randint(1, 5))]}
                )
        if self.pauses:
            threads = []
            script = []
        if threads:
            script = []  # callbacks of a group must not wait for other members' locks
        return {"ops": ops, "script": script, "threads": threads,
                "group": rng.random() < 0.8, "fast": rng.random() < 0.2,
                "checked": rng.random() < 0.2, "named": rng.random() < 0.25}

    def excl(self, rng):
        if rng.random() < 0.5:
            return []
        return [[rng.randrange(3), rng.random() < 0.5]
                for _ in range(rng.choice([1, 1, 2, 3]))]

    def body(self, rng, depth, inside=False):
        out = []
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            if self.pauses and rng.random() < 0.3:
                out.append([rng.choice(["p", "p", "r"]), rng.choice([0, 1, 2, 3, 4])])
            elif r < 0.5 or depth == 0:
                out.append(["e", rng.choice([0, 0, 1, 2, 4])])
            elif r < 0.7:
                out.append(["w", rng.choice([0, 1, 2, 4]), self.body(rng, depth - 1),
                            rng.random() < 0.25])
            elif r < 0.95:
                out.append(["gw", self.excl(rng), self.body(rng, depth - 1),
                            rng.random() < 0.25, rng.random() < 0.5])
            elif inside:
                out.append(["raise"])
        return out

    # ------------------------------------------------------------------ execution
    def run(self, sim: Sim, plan: dict) -> None:
        sim.quiet = True
        g = Named() if plan.get("named") else Group()
        free = SignalInstance((int,), name="free")
        sigs = [*(g[n] for n in NAMES), None, free]
        seq = [0]
        calls: list[tuple] = []
        gcalls: list[tuple] = []
        ems: list[dict] = []
        state = [False, False, False, False, False]  # blocked?  (3 is the group)
        hist = [[(0, 0, False)] for _ in range(5)]  # (from, to, new state)
        ncall = [0]
        budget = [50]
        raised: list = []
        pst = [False] * 5  # paused?

        def tick():
            seq[0] += 1
            return seq[0]

        def on(i):
            def f(x):
                calls.append((i, x, tick()))
                sim.point()
                n = ncall[0]
                ncall[0] += 1
                if n < len(plan["script"]):
                    sim.stat("reentrant")
                    for o in plan["script"][n]:
                        do(o)

            return f

        fs = [on(i) if i != 3 else None for i in range(5)]
        for i in (0, 1, 2, 4):
            sigs[i].connect(fs[i])

        def on_group(info):
            gcalls.append((sigs.index(info.signal), info.args[0], tick()))
            sim.point()

        if plan["group"]:
            g.connect(on_group)

        def emit(i):
            if budget[0] <= 0:
                return
            budget[0] -= 1
            d = {"i": i, "tok": tick() + 100, "thr": sim.me(), "end": INF, "exc": False}
            d["paused"] = pst[i] or (i != 4 and pst[3])
            ems.append(d)
            try:
                if plan["fast"] and i == 4:
                    sigs[i].emit_fast(d["tok"])
                elif plan["checked"]:
                    sigs[i].emit(d["tok"], check_nargs=True, check_types=True)
                else:
                    sigs[i].emit(d["tok"])
            except EmitLoopError as e:
                d["exc"] = True
                if not any(e.__cause__ is x for x in raised):
                    sim.fail("emit-error", f"emit raised from {e.__cause__!r}")
                drop_tb(e)
            finally:
                d["end"] = tick()

        def change(fn, new):
            t0 = tick()
            try:
                fn()
            finally:
                t1 = tick()
                for i in range(5):
                    if new[i] != state[i]:
                        hist[i].append((t0, t1, new[i]))
                state[:] = new

        def excluded(ex):
            return tuple(sigs[i] if by_obj else NAMES[i] for i, by_obj in ex)

        def blocked_by(what, ex):
            new = list(state)
            if what == 3:
                out = {i for i, _ in ex}
                for i in range(3):
                    if i not in out:
                        new[i] = True
                new[3] = True
            else:
                new[what] = True
            return new

        def within(what, ex, body, fail, ctx):
            before = list(state)
            change(ctx.__enter__, blocked_by(what, ex))
            err = (None, None, None)
            try:
                for o in body:
                    do(o)
                if fail:
                    sim.fault("body-raises")
                    raise Boom
            except (SimAbort, GeneratorExit):
                raise
            except BaseException as e:
                err = (type(e), e, e.__traceback__)
            change(lambda: ctx.__exit__(*err), before)
            if err[1] is not None and not isinstance(err[1], Boom):
                raise err[1]
            if err[1] is not None:
                drop_tb(err[1])
                if any(err[1] is x for x in raised):
                    raise err[1]

        def do(o):
            k = o[0]
            if k == "e":
                emit(o[1])
            elif k == "B":
                change(sigs[o[1]].block, blocked_by(o[1], ()))
            elif k == "U":
                new = list(state)
                new[o[1]] = False
                change(sigs[o[1]].unblock, new)
            elif k == "w":
                within(o[1], (), o[2], o[3], sigs[o[1]].blocked())
            elif k == "gw":
                t = g.all if o[4] else g
                within(3, o[1], o[2], o[3], t.blocked(exclude=excluded(o[1])))
            elif k == "GB":
                before = list(state)
                change(lambda: g.block(exclude=excluded(o[1])), blocked_by(3, o[1]))
                for b in o[2]:
                    do(b)
                change(g.unblock, before)
            elif k in ("p", "r"):
                pst[o[1]] = k == "p"
                sim.stat("pause" if k == "p" else "resume")
                t = sigs[o[1]] if o[1] != 3 else g
                (t.pause if k == "p" else t.resume)()
            elif k == "raise":
                sim.fault("callback-raises")
                e = Boom()
                raised.append(e)
                raise e

        def top(ops):
            for o in ops:
                do(o)

        sim.quiet = False
        for k, t in enumerate(plan["threads"]):
            sim.spawn(lambda t=t: top(t["ops"]), f"t{k + 1}")
        top(plan["ops"])
        sim.join_all()
        sim.quiet = True
        for i in range(5):
            if pst[i]:
                do(["r", i])
        # every signal is now exactly as the model says
        for i in (0, 1, 2, 4):
            emit(i)
        for i in (0, 1, 2, 4):
            if state[i]:
                change(sigs[i].unblock, [s and k != i for k, s in enumerate(state)])
                emit(i)
        self.judge(sim, plan, calls, gcalls, ems, hist)
        sim.log(calls)
        for u in sim.uncaught:
            sim.fail("thread-died", str(u))
        for e in raised:
            drop_tb(e)

    def judge(self, sim, plan, calls, gcalls, ems, hist) -> None:
        names = [*NAMES, "group", "free"]
        by: dict[tuple, list] = {}
        for i, tok, t in calls:
            by.setdefault((i, tok), []).append(t)
        gby: dict[tuple, list] = {}
        for i, tok, t in gcalls:
            gby.setdefault((i, tok), []).append(t)
        for d in ems:
            i = d["i"]
            # the states it may have met: those of all changes overlapping it, and the
            # last one before
            s, e = d["tok"] - 100, d["end"]
            st = {h[2] for h in hist[i] if h[0] < e and h[1] > s}
            st.add([h for h in hist[i] if h[1] < s or h[0] == 0][-1][2])
            if d["thr"] == 0:
                # the controlling thread: changes made inside of the emission do not count
                st = {[h for h in hist[i] if h[1] < s or h[0] == 0][-1][2]}
            n = len(by.get((i, d["tok"]), []))
            if n > 1:
                sim.fail("duplicate", f"{names[i]} delivered an emission {n} times")
            if n and st == {True}:
                sim.fail("delivered", f"{names[i]} delivered while it was blocked")
            if not n and st == {False} and not d["paused"]:
                sim.fail("lost", f"{names[i]} did not deliver though it was not blocked")
            if d["paused"]:  # when and where it is delivered is C07's concern
                continue
            for t in by.get((i, d["tok"]), []):
                if t > d["end"]:
                    sim.fail("later", f"{names[i]} delivered after emit() had returned")
            if i == 4 or not plan["group"]:
                continue
            m = len(gby.get((i, d["tok"]), []))
            gst = {h[2] for h in hist[3] if h[0] < e and h[1] > s}
            gst.add([h for h in hist[3] if h[1] < s or h[0] == 0][-1][2])
            if m > 1:
                sim.fail("duplicate", f"group reported {names[i]} {m} times")
            if m and not n:
                sim.fail("delivered", f"group reported {names[i]}, which was blocked")
            # (whether a blocked group reports members excluded from the block is open)
            if n and not m and gst == {False} and not d["exc"]:
                sim.fail("lost", f"group did not report {names[i]}")

    def nontrivial(self, sim, plan):
        return True
